#! Time of day (C26).
#include dayspec.vxi
#file vsri/src/lib.rs
#fn day_elapsed_seconds
#spec
    requires in_calendar($1 as int),
    ensures ret == day_secs($1 as int), 0 <= ret < 86400,
#fn start_day_ts
#spec
    ensures ret == secs($1) - day_secs(secs($1)), ret % 86400 == 0, ret <= secs($1) < ret + 86400,
