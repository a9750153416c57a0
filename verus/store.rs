// Unit: the header stores (chain/src/block/store/{io,memory}.rs).
use vstd::prelude::*;
use std::mem;
verus! {
global size_of usize == 8;
pub type Height = u64;
pub mod dep {
use vstd::prelude::*;
//@@ include shim_file.rs
//@@ include shim_coll.rs
//@@ include shim_iter.rs
impl<T> VecDeque<T> {
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures r.is_none() == (old(self)@.len() == 0), r.is_some() ==> r.unwrap() == old(self)@[0] && final(self)@ == old(self)@.skip(1),
            r.is_none() ==> final(self)@ == old(self)@
    { unimplemented!() }
}
impl<T> TailVec<T> {
    #[verifier::external_body]
    pub fn extend(&mut self, v: Vec<T>) ensures final(self)@ == old(self)@ + v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize) ensures final(self)@ == (if n <= old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }) { unimplemented!() }
}
pub enum Error { Io(io::Error), Decoding(encode::Error), Corruption, Interrupted }
pub mod encode { pub struct Error { pub x: u8 } }
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: io::Error) -> Self { Error::Io(e) }
}
impl From<io::Error> for Error { fn from(e: io::Error) -> (r: Self) { Error::Io(e) } }
impl vstd::std_specs::convert::FromSpecImpl<encode::Error> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: encode::Error) -> Self { Error::Decoding(e) }
}
impl From<encode::Error> for Error { fn from(e: encode::Error) -> (r: Self) { Error::Decoding(e) } }
/// `?` converts with `From`
pub broadcast axiom fn axiom_q_io(e: io::Error, r: Error)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<Error, io::Error>(e, r) ==> r == Error::Io(e);
pub broadcast axiom fn axiom_q_dec(e: encode::Error, r: Error)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<Error, encode::Error>(e, r) ==> r == Error::Decoding(e);

/// A fixed-size record: its consensus encoding has exactly the size of the type, decodes back to itself,
/// and every string of that size decodes (true of block headers and of filter headers: fixed-width fields only).
pub trait Rec: Sized + Copy {
    spec fn enc(self) -> Seq<u8>;
    spec fn dec(b: Seq<u8>) -> Self;
    fn consensus_encode(&self, f: &mut fs::File) -> (r: Result<usize, io::Error>)
        ensures
            r.is_ok() ==> final(f).data() == old(f).data() + self.enc() && r->Ok_0 == self.enc().len(),
            // a write that fails half way has appended a prefix of the record
            r.is_err() ==> final(f).data().len() >= old(f).data().len() && final(f).data().take(old(f).data().len() as int) == old(f).data()
                && final(f).data().len() < old(f).data().len() + self.enc().len()
                && final(f).data() == old(f).data() + self.enc().take(final(f).data().len() - old(f).data().len()),
    ;
    fn consensus_decode(b: &mut &[u8]) -> (r: Result<Self, encode::Error>)
        ensures old(b)@.len() == rsz::<Self>() ==> r.is_ok(), r.is_ok() ==> r->Ok_0 == Self::dec(old(b)@),
    ;
}
pub open spec fn rsz<H>() -> nat { vstd::layout::size_of::<H>() }
pub broadcast axiom fn axiom_rec<H: Rec>(h: H)
    ensures #![trigger h.enc()] h.enc().len() == rsz::<H>(), H::dec(h.enc()) == h, 0 < rsz::<H>(), rsz::<H>() <= 0x1000;
pub axiom fn axiom_rec_size<H: Rec>()
    ensures 0 < vstd::layout::size_of::<H>(), vstd::layout::size_of::<H>() <= 0x1000;

}
use dep::*;
broadcast use {dep::axiom_q_io, dep::axiom_q_dec, dep::axiom_rec, dep::fs::axiom_file_len};

// ---- records of a byte string -------------------------------------------------
pub open spec fn nrec<H>(d: Seq<u8>) -> int { d.len() as int / rsz::<H>() as int }
pub open spec fn rec_at<H: Rec>(d: Seq<u8>, i: int) -> H { H::dec(d.subrange(i * rsz::<H>() as int, (i + 1) * rsz::<H>() as int)) }
/// the whole records of `d`
pub open spec fn recs<H: Rec>(d: Seq<u8>) -> Seq<H> { Seq::new(nrec::<H>(d) as nat, |i: int| rec_at::<H>(d, i)) }
pub open spec fn aligned<H>(d: Seq<u8>) -> bool { d.len() as int % rsz::<H>() as int == 0 }
pub open spec fn encs<H: Rec>(s: Seq<H>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { encs(s.drop_last()) + s.last().enc() }
}
pub open spec fn is_prefix(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() <= b.len() && b.take(a.len() as int) =~= a }

pub proof fn lemma_div(n: int, s: int, k: int) requires s > 0, n >= 0, k >= 0
    ensures n % s == 0 ==> (n + k * s) / s == n / s + k && (n + k * s) % s == 0, (n / s) * s <= n < (n / s + 1) * s, k * s <= n ==> k <= n / s,
        n % s == 0 ==> (n / s) * s == n, (k * s) / s == k
{
    assert((n + k * s) / s == n / s + k) by (nonlinear_arith) requires s > 0, n >= 0, k >= 0;
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(k, n, s);
    assert(s * k + n == n + k * s) by (nonlinear_arith);
    assert((n / s) * s <= n < (n / s + 1) * s) by (nonlinear_arith) requires s > 0, n >= 0;
    if k * s <= n { assert(k <= n / s) by (nonlinear_arith) requires k * s <= n, s > 0, n < (n / s + 1) * s; }
    assert((k * s) / s == k) by (nonlinear_arith) requires s > 0, k >= 0;
    if n % s == 0 { assert((n / s) * s == n) by (nonlinear_arith) requires n % s == 0, s > 0, n >= 0; }
}
/// record `i` lies inside the string iff i < nrec
pub proof fn lemma_in<H: Rec>(d: Seq<u8>, i: int) requires 0 <= i
    ensures i < nrec::<H>(d) <==> (i + 1) * rsz::<H>() <= d.len(), 0 <= i * rsz::<H>() <= (i + 1) * rsz::<H>(), rsz::<H>() > 0, (i + 1) * rsz::<H>() == i * rsz::<H>() + rsz::<H>()
{
    axiom_rec_size::<H>();
    let s = rsz::<H>() as int; let n = d.len() as int;
    lemma_div(n, s, i + 1);
    assert(0 <= i * s && (i + 1) * s == i * s + s) by (nonlinear_arith) requires 0 <= i, s > 0;
    if i < n / s { assert((i + 1) * s <= n) by (nonlinear_arith) requires i + 1 <= n / s, (n / s) * s <= n, s > 0; }
}
pub proof fn lemma_push<H: Rec>(d: Seq<u8>, h: H) requires aligned::<H>(d)
    ensures aligned::<H>(d + h.enc()), recs::<H>(d + h.enc()) =~= recs::<H>(d).push(h)
{
    axiom_rec_size::<H>();
    let s = rsz::<H>() as int; let n = d.len() as int; let e = d + h.enc();
    lemma_div(n, s, 1);
    assert(1 * s == s);
    assert(nrec::<H>(e) == nrec::<H>(d) + 1);
    assert forall|i: int| 0 <= i < nrec::<H>(d) implies rec_at::<H>(e, i) == rec_at::<H>(d, i) by {
        lemma_in::<H>(d, i);
        assert(e.subrange(i * s, (i + 1) * s) =~= d.subrange(i * s, (i + 1) * s));
    }
    let k = nrec::<H>(d);
    lemma_in::<H>(e, k);
    assert(e.subrange(k * s, (k + 1) * s) =~= h.enc());
}
pub proof fn lemma_encs<H: Rec>(d: Seq<u8>, hs: Seq<H>) requires aligned::<H>(d)
    ensures aligned::<H>(d + encs(hs)), recs::<H>(d + encs(hs)) =~= recs::<H>(d) + hs
    decreases hs.len()
{
    if hs.len() == 0 { assert(d + encs(hs) =~= d); }
    else {
        lemma_encs(d, hs.drop_last());
        let d1 = d + encs(hs.drop_last());
        lemma_push(d1, hs.last());
        assert(d + encs(hs) =~= d1 + hs.last().enc());
        assert(recs::<H>(d) + hs =~= (recs::<H>(d) + hs.drop_last()).push(hs.last()));
    }
}
pub proof fn lemma_take<H: Rec>(d: Seq<u8>, k: int) requires 0 <= k, k * rsz::<H>() <= d.len()
    ensures aligned::<H>(d.take(k * rsz::<H>())), recs::<H>(d.take(k * rsz::<H>())) =~= recs::<H>(d).take(k), k <= nrec::<H>(d), nrec::<H>(d.take(k * rsz::<H>())) == k, 0 <= k * rsz::<H>()
{
    axiom_rec_size::<H>();
    let s = rsz::<H>() as int; let n = d.len() as int;
    lemma_div(n, s, k); lemma_div(0, s, k);
    assert(0 <= k * s) by (nonlinear_arith) requires 0 <= k, s > 0;
    let e = d.take(k * s);
    assert forall|i: int| 0 <= i < k implies rec_at::<H>(e, i) == rec_at::<H>(d, i) by {
        lemma_in::<H>(e, i);
        assert(e.subrange(i * s, (i + 1) * s) =~= d.subrange(i * s, (i + 1) * s));
    }
}
pub proof fn lemma_skip<H: Rec>(d: Seq<u8>, k: int) requires 0 <= k, k * rsz::<H>() <= d.len()
    ensures recs::<H>(d.skip(k * rsz::<H>())) =~= recs::<H>(d).skip(k), k <= nrec::<H>(d), 0 <= k * rsz::<H>()
{
    axiom_rec_size::<H>();
    let s = rsz::<H>() as int; let n = d.len() as int;
    assert(0 <= k * s) by (nonlinear_arith) requires 0 <= k, s > 0;
    lemma_div(n, s, k);
    let e = d.skip(k * s);
    assert((n - k * s) / s == n / s - k) by (nonlinear_arith) requires s > 0, n >= k * s, k >= 0;
    assert forall|i: int| 0 <= i < nrec::<H>(e) implies rec_at::<H>(e, i) == rec_at::<H>(d, k + i) by {
        lemma_in::<H>(e, i);
        assert((k + i) * s == k * s + i * s && (k + i + 1) * s == k * s + (i + 1) * s) by (nonlinear_arith);
        assert(e.subrange(i * s, (i + 1) * s) =~= d.subrange((k + i) * s, (k + i + 1) * s));
    }
}
/// Crash recovery: whatever prefix of an append reached the file, the whole records left are the old ones and a prefix of the new ones.
pub proof fn theorem_crash<H: Rec>(d: Seq<u8>, hs: Seq<H>, n: int)
    requires aligned::<H>(d), d.len() <= n <= d.len() + encs(hs).len()
    ensures ({ let k = nrec::<H>((d + encs(hs)).take(n)) - nrec::<H>(d);
               0 <= k <= hs.len() && recs::<H>((d + encs(hs)).take(n)) =~= recs::<H>(d) + hs.take(k) })
{
    axiom_rec_size::<H>();
    let s = rsz::<H>() as int;
    let e = d + encs(hs); let c = e.take(n);
    lemma_encs(d, hs);
    lemma_div(n, s, 0); lemma_div(d.len() as int, s, 0); lemma_div(e.len() as int, s, 0);
    let k = nrec::<H>(c);
    assert(nrec::<H>(d) <= k <= nrec::<H>(e)) by (nonlinear_arith)
        requires nrec::<H>(d) == d.len() as int / s, k == n / s, nrec::<H>(e) == e.len() as int / s, d.len() <= n <= e.len(), s > 0;
    assert forall|i: int| 0 <= i < k implies rec_at::<H>(c, i) == rec_at::<H>(e, i) by {
        lemma_in::<H>(c, i);
        assert(c.subrange(i * s, (i + 1) * s) =~= e.subrange(i * s, (i + 1) * s));
    }
    assert(recs::<H>(c) =~= recs::<H>(e).take(k));
}

//@@ fn chain/src/block/store/io.rs | fn put
//@ sig: fn put<H: Rec>(stream: &mut fs::File, headers: Vec<H>) -> (r: Result<Height, Error>)
//@ subst: &mut stream =>> stream
//@ spec:
    ensures
        // appended, in order, nothing else touched; the result is the height of the last record
        r.is_ok() ==> final(stream).data() == old(stream).data() + encs(headers@),
        r.is_ok() && aligned::<H>(old(stream).data()) ==> recs::<H>(final(stream).data()) == recs::<H>(old(stream).data()) + headers@
            && aligned::<H>(final(stream).data()) && r->Ok_0 == nrec::<H>(final(stream).data()),
        // a failed append leaves every earlier byte, and a prefix of the new ones
        r.is_err() ==> is_prefix(old(stream).data(), final(stream).data()) && is_prefix(final(stream).data(), old(stream).data() + encs(headers@)),
//@ entry:
    let ghost D = stream.data();
    proof { axiom_rec_size::<H>(); assert(D + encs::<H>(Seq::empty()) =~= D); }
//@ loop 0 it=it:
    invariant
        it.seq().len() == headers@.len(), forall|i: int| 0 <= i < headers@.len() ==> #[trigger] it.seq()[i] == headers@[i],
        0 < size == rsz::<H>(), D == old(stream).data(),
        stream.data() == D + encs(headers@.take(it.index@)),
        pos == stream.data().len(),
//@ loop_start 0:
    proof {
        let n = it.index@;
        assert(headers@.take(n + 1).drop_last() =~= headers@.take(n));
        assert(headers@.take(n + 1).last() == headers@[n]);
        lemma_encs_prefix(headers@, n + 1);
        assert(D + (encs(headers@.take(n)) + headers@[n].enc()) =~= (D + encs(headers@.take(n))) + headers@[n].enc());
        lemma_prefix3(D, encs(headers@.take(n)), headers@[n].enc(), encs(headers@));
    }
//@ loop_end 0:
    proof { fs::axiom_file_len(*stream); }
//@ loop_after 0:
    proof { assert(headers@.take(headers@.len() as int) =~= headers@); if aligned::<H>(D) { lemma_encs(D, headers@); } }
//@@ end
pub proof fn lemma_prefix3(d: Seq<u8>, a: Seq<u8>, e: Seq<u8>, all: Seq<u8>) requires is_prefix(a + e, all)
    ensures forall|k: int| 0 <= k <= e.len() ==> is_prefix((d + a) + (#[trigger] e.take(k)), d + all) && is_prefix(d, (d + a) + e.take(k))
{
    assert forall|k: int| 0 <= k <= e.len() implies is_prefix((d + a) + (#[trigger] e.take(k)), d + all) && is_prefix(d, (d + a) + e.take(k)) by {
        let x = (d + a) + e.take(k);
        assert forall|i: int| 0 <= i < x.len() implies x[i] == (d + all)[i] by {
            if i >= d.len() { assert(all.take((a + e).len() as int)[i - d.len()] == (a + e)[i - d.len()]); }
        }
        assert((d + all).take(x.len() as int) =~= x);
        assert(x.take(d.len() as int) =~= d);
    }
}
pub proof fn lemma_encs_prefix<H: Rec>(s: Seq<H>, n: int) requires 0 <= n <= s.len()
    ensures is_prefix(encs(s.take(n)), encs(s)) decreases s.len() - n
{
    if n < s.len() {
        lemma_encs_prefix(s, n + 1);
        assert(s.take(n + 1).drop_last() =~= s.take(n));
        assert(encs(s.take(n + 1)) == encs(s.take(n)) + s[n].enc());
        let a = encs(s.take(n)); let b = encs(s.take(n + 1));
        assert(b.take(a.len() as int) =~= a);
        assert(encs(s).take(a.len() as int) =~= encs(s).take(b.len() as int).take(a.len() as int));
    } else { assert(s.take(n) =~= s); }
}

//@@ fn chain/src/block/store/io.rs | fn get
//@ sig: fn get<H: Rec>(stream: &mut fs::File, ix: u64) -> (r: Result<H, Error>)
//@ spec:
    requires ix * rsz::<H>() <= u64::MAX
    ensures
        final(stream).data() == old(stream).data(),
        r.is_ok() ==> ix < nrec::<H>(old(stream).data()) && r->Ok_0 == rec_at::<H>(old(stream).data(), ix as int),
        r.is_err() ==> r->Err_0 is Io,
//@ entry:
    proof { axiom_rec_size::<H>(); lemma_in::<H>(stream.data(), ix as int); }
//@@ end

/// reading `n` bytes (all of it, or a whole number of records) splits the records in two
pub proof fn lemma_batch<H: Rec>(d: Seq<u8>, n: int)
    requires 0 <= n <= d.len(), n == d.len() || n % (rsz::<H>() as int) == 0
    ensures recs::<H>(d) =~= recs::<H>(d.take(n)) + recs::<H>(d.skip(n))
{
    axiom_rec_size::<H>();
    let s = rsz::<H>() as int;
    if n == d.len() {
        assert(d.take(n) =~= d); assert(d.skip(n).len() == 0);
        lemma_div(0, s, 0);
        assert(recs::<H>(d.skip(n)).len() == 0);
    } else {
        let k = n / s; lemma_div(n, s, k);
        lemma_take::<H>(d, k); lemma_skip::<H>(d, k);
        assert(recs::<H>(d) =~= recs::<H>(d).take(k) + recs::<H>(d).skip(k));
    }
}
//@@ struct chain/src/block/store/io.rs | struct FileReader
//@ attr: #[verifier::reject_recursive_types(H)]
//@@ end
impl<H: Rec> FileReader<H> {
    /// what is still to be read: the queue, then the whole records from `index` on
    pub open spec fn rest(&self) -> Seq<H> { self.queue@ + recs::<H>(self.file.data().skip(self.index as int)) }
    pub open spec fn wf(&self) -> bool { self.index <= self.file.data().len() }
//@@ const chain/src/block/store/io.rs | impl FileReader / const BATCH_SIZE
//@@ end
//@@ fn chain/src/block/store/io.rs | impl FileReader / fn new
//@ spec:
    ensures r.wf(), r.rest() == recs::<H>(file.data()), r.file.data() == file.data()
//@ exit:
    proof { assert(file.data().skip(0) =~= file.data()); assert(ret__.rest() =~= recs::<H>(file.data())); }
//@@ end
//@@ fn chain/src/block/store/io.rs | impl FileReader / fn next
//@ spec:
    requires old(self).wf()
    ensures
        final(self).file.data() == old(self).file.data(),
        r.is_ok() ==> final(self).wf(),
        r.is_ok() && old(self).rest().len() > 0 ==> r->Ok_0 == Some(old(self).rest()[0]) && final(self).rest() =~= old(self).rest().skip(1),
        r.is_ok() && old(self).rest().len() == 0 ==> r->Ok_0.is_none() && final(self).rest().len() == 0,
        r.is_err() ==> r->Err_0 is Io && r->Err_0->Io_0.k != io::ErrorKind::UnexpectedEof,
//@ loop 0 it=it:
    invariant
        n__ == it.index@, D == old(self).file.data(),
        cursor.data() == B, item@.len() == size, size == rsz::<H>(), size > 0,
        B == D.subrange(I, I + B.len()), I + B.len() <= D.len(), 0 <= I,
        self.file.data() == D, self.index == I + B.len(),
        items == nrec::<H>(B),
        I + B.len() == D.len() || B.len() == size * 16,
        n__ == self.queue@.len(), 0 <= n__ <= items,
        cursor.pos() == n__ * size,
        forall|i: int| 0 <= i < n__ ==> #[trigger] self.queue@[i] == rec_at::<H>(B, i),
//@ loop_before 0:
    let ghost mut n__: int = 0;
    let ghost B = cursor.data();
    proof { axiom_rec_size::<H>(); }
//@ loop_start 0:
    proof { lemma_in::<H>(B, n__); }
//@ loop_end 0:
    proof { n__ = n__ + 1; }
//@ loop_after 0:
    proof {
        // the batch is the next `items` records of the rest of the file
        let R = D.skip(I);
        assert(B =~= R.take(B.len() as int));
        if I + B.len() != D.len() { lemma_div(0, rsz::<H>() as int, 16); assert(B.len() == 16 * rsz::<H>()); }
        lemma_batch::<H>(R, B.len() as int);
        assert(D.skip(self.index as int) =~= R.skip(B.len() as int));
        assert(self.queue@ =~= recs::<H>(B));
        assert(self.rest() =~= recs::<H>(R));
    }
//@ entry:
    let ghost D = self.file.data();
    let ghost I = self.index as int;
    proof { axiom_rec_size::<H>(); }
//@@ end
}

//@@ struct chain/src/block/store/io.rs | struct Iter
//@ attr: #[verifier::reject_recursive_types(H)]
//@@ end
impl<H: Rec> Iter<H> {
//@@ fn chain/src/block/store/io.rs | impl Iter / fn new
//@ spec:
    ensures r.file.wf(), r.height == 1, r.file.rest() == recs::<H>(file.data())
//@@ end
//@@ fn chain/src/block/store/io.rs | impl Iterator for Iter / fn next
//@ sig: fn next(&mut self) -> (r: Option<Result<(Height, H), Error>>)
//@ spec:
    requires old(self).file.wf(), old(self).height >= 1, old(self).height < u64::MAX
    ensures
        // the next stored header with its height, in order, until (and only until) the last one
        old(self).file.rest().len() == 0 && r.is_some() ==> r.unwrap().is_err(),
        old(self).file.rest().len() > 0 ==> r.is_some(),
        r.is_some() && r.unwrap().is_ok() ==> r.unwrap()->Ok_0 == (old(self).height, old(self).file.rest()[0])
            && final(self).file.wf() && final(self).file.rest() =~= old(self).file.rest().skip(1) && final(self).height == old(self).height + 1,
//@@ end
}

//@@ struct chain/src/block/store/io.rs | struct File
//@ attr: #[verifier::reject_recursive_types(H)]
//@@ end
impl<H: Rec> File<H> {
    /// the stored headers, genesis first
    pub open spec fn seq(&self) -> Seq<H> { seq![self.genesis] + recs::<H>(self.file.data()) }
    pub open spec fn wf(&self) -> bool { aligned::<H>(self.file.data()) }
//@@ fn chain/src/block/store/io.rs | impl Store for File / fn genesis
//@ spec:
    ensures r == self.seq()[0]
//@@ end
//@@ fn chain/src/block/store/io.rs | impl Store for File / fn put
//@ sig: fn put(&mut self, headers: Vec<H>) -> (r: Result<Height, Error>)
//@ spec:
    requires old(self).wf()
    ensures
        final(self).genesis == old(self).genesis,
        r.is_ok() ==> final(self).wf() && final(self).seq() =~= old(self).seq() + headers@ && r->Ok_0 == final(self).seq().len() - 1,
        // a failed append keeps everything stored before
        r.is_err() ==> is_prefix(old(self).file.data(), final(self).file.data()) && is_prefix(final(self).file.data(), old(self).file.data() + encs(headers@)),
//@@ end
//@@ fn chain/src/block/store/io.rs | impl Store for File / fn get
//@ spec:
    requires self.wf(), height * rsz::<H>() <= u64::MAX
    ensures
        r.is_ok() ==> height < self.seq().len() && r->Ok_0 == self.seq()[height as int],
        height == 0 ==> r.is_ok(),
//@ entry:
    proof { axiom_rec_size::<H>(); if height > 0 { let s = rsz::<H>() as int; let h = height as int; assert((h - 1) * s <= h * s) by (nonlinear_arith) requires s > 0, h > 0; } }
//@@ end
//@@ fn chain/src/block/store/io.rs | impl Store for File / fn rollback
//@ spec:
    requires old(self).wf(), height * rsz::<H>() <= u64::MAX
    ensures
        final(self).genesis == old(self).genesis,
        r.is_err() ==> final(self).file.data() == old(self).file.data(),
        r.is_ok() && height < old(self).seq().len() ==> final(self).wf() && final(self).seq() =~= old(self).seq().take(height + 1),
//@ entry:
    let ghost D = self.file.data();
    proof { axiom_rec_size::<H>(); if height < self.seq().len() { if height > 0 { lemma_in::<H>(D, height - 1); } lemma_take::<H>(D, height as int); } }
//@ exit:
    proof { if ret__.is_ok() && height < old(self).seq().len() { assert(self.seq() =~= old(self).seq().take(height + 1)); } }
//@@ end
//@@ fn chain/src/block/store/io.rs | impl Store for File / fn len
//@ spec:
    ensures
        r.is_ok() ==> self.wf() && r->Ok_0 == self.seq().len(),
        !self.wf() ==> r.is_err(),
//@ entry:
    proof { axiom_rec_size::<H>(); fs::axiom_file_len(self.file); lemma_div(self.file.data().len() as int, rsz::<H>() as int, 0); }
//@@ end
//@@ fn chain/src/block/store/io.rs | impl Store for File / fn height
//@ spec:
    ensures r.is_ok() ==> self.wf() && r->Ok_0 == self.seq().len() - 1, !self.wf() ==> r.is_err(),
//@ closure 0: |n: usize| -> (o: Height) requires n >= 1 ensures o == n - 1
//@@ end
//@@ fn chain/src/block/store/io.rs | impl Store for File / fn check
//@ spec:
    ensures r.is_ok() ==> self.wf(), !self.wf() ==> r.is_err(),
//@ closure 0: |_u: usize| -> (o: ())
//@@ end
//@@ fn chain/src/block/store/io.rs | impl Store for File / fn heal
//@ sigsubst: &self =>> &mut self
//@ spec:
    ensures
        // healing drops exactly the trailing partial record
        final(self).genesis == old(self).genesis,
        r.is_ok() ==> final(self).wf() && final(self).seq() =~= old(self).seq(),
        r.is_ok() && old(self).wf() ==> final(self).file.data() == old(self).file.data(),
//@ entry:
    let ghost D = self.file.data();
    proof {
        axiom_rec_size::<H>(); fs::axiom_file_len(self.file);
        let s = rsz::<H>() as int; let n = D.len() as int;
        lemma_div(n, s, 0);
        lemma_take::<H>(D, n / s);
        assert(n - n % s == (n / s) * s) by (nonlinear_arith) requires s > 0, n >= 0;
        assert(recs::<H>(D).take(n / s) =~= recs::<H>(D));
    }
//@@ end
}

//@@ struct chain/src/block/store/memory.rs | struct Memory
//@ attr: #[verifier::reject_recursive_types(H)]
//@ subst: NonEmpty =>> pub NonEmpty
//@@ end
impl<H: Copy> Memory<H> {
    pub open spec fn seq(&self) -> Seq<H> { self.0@ }
//@@ fn chain/src/block/store/memory.rs | impl Memory / fn new
//@ spec:
    ensures r.seq() == chain@
//@@ end
//@@ fn chain/src/block/store/memory.rs | impl Store for Memory / fn genesis
//@ spec:
    ensures r == self.seq()[0]
//@@ end
//@@ fn chain/src/block/store/memory.rs | impl Store for Memory / fn put
//@ sig: fn put(&mut self, headers: Vec<H>) -> (r: Result<Height, Error>)
//@ spec:
    ensures r.is_ok(), final(self).seq() =~= old(self).seq() + headers@, r->Ok_0 == final(self).seq().len() - 1,
//@@ end
//@@ fn chain/src/block/store/memory.rs | impl Store for Memory / fn get
//@ subst: std::io::Error =>> io::Error
//@ subst: std::io::ErrorKind =>> io::ErrorKind
//@ spec:
    ensures r.is_ok() == (height < self.seq().len()), r.is_ok() ==> r->Ok_0 == self.seq()[height as int],
//@@ end
//@@ fn chain/src/block/store/memory.rs | impl Store for Memory / fn rollback
//@ spec:
    ensures r.is_ok(), height < old(self).seq().len() ==> final(self).seq() =~= old(self).seq().take(height + 1),
//@@ end
//@@ fn chain/src/block/store/memory.rs | impl Store for Memory / fn len
//@ spec:
    ensures r.is_ok(), r->Ok_0 == self.seq().len(),
//@@ end
//@@ fn chain/src/block/store/memory.rs | impl Store for Memory / fn height
//@ spec:
    ensures r.is_ok(), r->Ok_0 == self.seq().len() - 1,
//@@ end
}
}
fn main() {}
