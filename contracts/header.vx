#! Stream header (C09)
#include header.vxi
#postlude
#! what is written is recognised, and the fields come back
proof fn lemma_header_round_trip(count: u8) ensures good(header_bytes(1, count)), forall|v: u32, c: u8| header_bytes(1, count) == #[trigger] header_bytes(v, c) ==> v == 1 && c == count {
    let h = header_bytes(1, count);
    assert(h.take(4) =~= magic());
    assert(h.subrange(4, 8) =~= le4(1));
    assert forall|v: u32, c: u8| h == #[trigger] header_bytes(v, c) implies v == 1 && c == count by {
        let g = header_bytes(v, c);
        assert(g.subrange(4, 8) =~= le4(v));
        assert(g[8] == c && h[8] == count);
        lemma_le4(v, 1);
    }
}
