#! Statistics of a frame (C08)
#include iter.vxi
#include float.vxi
#include bincode.vxi
#include bitdepth.vxi
#include stats.vxi
