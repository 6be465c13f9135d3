#! csv-compressor's CSV reader and writer (C23)
#include iter.vxi
#include fs.vxi
#include float.vxi
#include text.vxi
#include csvx.vxi
#include csvcmp.vxi
#file csv-compressor/src/csv.rs
#fn Sample::new
#spec
    ensures ret.timestamp == $1, ret.value == $2,
#fn read_samples_from_csv_file
#opt world=open,headers,deserialize
#spec
    ensures *final(fs) == *old(fs),
        ret is Ok ==> old(fs).files.dom().contains(pid($1)) && head(old(fs).files[pid($1)]) is Some && read_back(body(old(fs).files[pid($1)], true), head(old(fs).files[pid($1)])->0, ret->Ok_0@),
        ret is Err && old(fs).healthy && old(fs).files.dom().contains(pid($1)) ==> head(old(fs).files[pid($1)]) is None || unreadable(body(old(fs).files[pid($1)], true), head(old(fs).files[pid($1)])->0),
#fn write_samples_to_csv_file
#opt world=File::create,serialize
#spec
    ensures others(*old(fs), *final(fs), pid($1)),
        ret is Ok ==> final(fs).files == old(fs).files.insert(pid($1), csv_bytes(table($2@))),
        old(fs).healthy ==> ret is Ok,
#loop 0 for it
        invariant
            others(*old(fs), *fs, pid($1)), old(fs).healthy ==> fs.healthy, fs.files.dom() == old(fs).files.dom().insert(pid($1)), writer.id() == pid($1), writer.text() == table($2@.take(it.index())), fs.files[pid($1)] == csv_bytes(writer.text()),
            0 <= it.index() <= it.seq().len(), it.seq().len() == $2@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == $2@[i],
#bodyend 0
        proof {
            let t = $2@.take(it.index() + 1);
            assert(t.drop_last() =~= $2@.take(it.index()));
            assert(table(t) =~= (if it.index() == 0 { table($2@.take(it.index())).push(names()) } else { table($2@.take(it.index())) }).push(record($2@[it.index()])));
        }
#pretail
    proof { assert($2@.take($2@.len() as int) =~= $2@); assert(fs.files =~= old(fs).files.insert(pid($1), csv_bytes(table($2@)))); }
#postlude
proof fn lemma_record(x: Sample)
    requires !nan(x.value),
    ensures of_record(names(), record(x)) == Some(x)
{
    reveal_strlit("timestamp"); reveal_strlit("value");
    let h = names();
    assert("timestamp"@.len() == 9 && "value"@.len() == 5);
    assert(once(h, "timestamp"@, 0)); assert(once(h, "value"@, 1));
    assert forall|j: int| once(h, "timestamp"@, j) implies j == 0 by { assert(h[j] == "timestamp"@); }
    assert forall|j: int| once(h, "value"@, j) implies j == 1 by { assert(h[j] == "value"@); }
}
proof fn lemma_table(s: Seq<Sample>)
    requires forall|i: int| 0 <= i < s.len() ==> !nan((#[trigger] s[i]).value),
    ensures ({ let c = csv_bytes(table(s)); let b = body(c, true);
        &&& head(c) is Some && b.len() == s.len() && !unreadable(b, head(c)->0)
        &&& forall|i: int| #![trigger b[i]] #![trigger s[i]] 0 <= i < b.len() ==> is_of(head(c)->0, b[i], s[i]) })
{
    let c = csv_bytes(table(s));
    assert(even(table(s)));
    assert(rows(c) == table(s).map_values(|x: Seq<Seq<char>>| Some(x)));
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] body(c, true)[i]) == Some(record(s[i])) && of_record(names(), record(s[i])) == Some(s[i]) by { assert(table(s)[i + 1] == record(s[i])); lemma_record(s[i]); }
    }
}
/// C23: writing and reading back gives the samples
fn write_then_read(dest: &Path, samples: &[Sample], Tracked(fs): Tracked<&mut Fs>) -> (r: Result<Vec<Sample>, csv::Error>)
    requires old(fs).healthy, forall|i: int| 0 <= i < samples@.len() ==> !nan((#[trigger] samples@[i]).value),
    ensures r is Ok, r->Ok_0@ == samples@,
{
    write_samples_to_csv_file(dest, samples, Tracked(&mut *fs))?;
    let r = read_samples_from_csv_file(dest, Tracked(&mut *fs));
    proof { lemma_table(samples@); if r is Ok { assert(r->Ok_0@ =~= samples@) by { assert forall|i: int| 0 <= i < samples@.len() implies r->Ok_0@[i] == samples@[i] by { let x = samples@[i]; let y = r->Ok_0@[i]; } } } }
    r
}
