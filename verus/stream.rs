// Unit: the message stream decoder (p2p/src/stream.rs).
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub mod dep {
use vstd::prelude::*;
pub mod io { pub enum ErrorKind { UnexpectedEof, Other } 
    impl vstd::std_specs::cmp::PartialEqSpecImpl for ErrorKind {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &ErrorKind) -> bool { *self == *o }
    }
    impl PartialEq for ErrorKind { fn eq(&self, o: &ErrorKind) -> (r: bool) { match (self, o) { (ErrorKind::UnexpectedEof, ErrorKind::UnexpectedEof) => true, (ErrorKind::Other, ErrorKind::Other) => true, _ => false } } }
    pub struct Error { pub eof: bool }
    impl Error { pub fn kind(&self) -> (r: ErrorKind) ensures (r == ErrorKind::UnexpectedEof) == self.eof { if self.eof { ErrorKind::UnexpectedEof } else { ErrorKind::Other } } }
}
/// what decoding the front of a byte string can give
pub enum Front<D> { Msg(D, nat), More, Bad(encode::Error) }
pub trait Decodable: Sized {
    spec fn front(b: Seq<u8>) -> Front<Self>;
    /// what is decoded is decided by the bytes it is decoded from: bytes further on change nothing
    proof fn axiom_prefix(b: Seq<u8>, x: Seq<u8>)
        ensures
            forall|d: Self, n: nat| Self::front(b) == Front::Msg(d, n) ==> 0 < n <= b.len() && #[trigger] Self::front(b + x) == Front::Msg(d, n),
            forall|e: encode::Error| Self::front(b) == Front::<Self>::Bad(e) ==> #[trigger] Self::front(b + x) == Front::<Self>::Bad(e),
            Self::front(Seq::empty()) == Front::<Self>::More;
}
pub mod encode {
    use vstd::prelude::*;
    use super::*;
    pub enum Error { Io(io::Error), Other(u8) }
    pub open spec fn is_eof(e: Error) -> bool { e matches Error::Io(x) && x.eof }
    #[verifier::external_body]
    pub fn deserialize_partial<D: Decodable>(b: &Vec<u8>) -> (r: Result<(D, usize), Error>)
        ensures
            D::front(b@) matches Front::Msg(d, n) ==> r.is_ok() && r->Ok_0.0 == d && r->Ok_0.1 == n && n <= b@.len(),
            D::front(b@) == Front::<D>::More ==> r.is_err() && is_eof(r->Err_0),
            D::front(b@) matches Front::Bad(e) ==> r == Err::<(D, usize), _>(e) && !is_eof(e),
    { unimplemented!() }
}
pub trait DrainX { spec fn sqv(&self) -> Seq<u8>;
    fn drain_to(&mut self, r: std::ops::RangeTo<usize>) requires r.end <= old(self).sqv().len() ensures final(self).sqv() == old(self).sqv().skip(r.end as int);
}
impl DrainX for Vec<u8> { open spec fn sqv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn drain_to(&mut self, r: std::ops::RangeTo<usize>) { unimplemented!() }
}
}
use dep::*;
//@@ struct p2p/src/stream.rs | struct Decoder
//@@ end
/// ends the borrow on every path (the verifier does not do it by itself behind a guarded match arm)
fn settle<T>(x: &mut T) ensures *final(x) == *old(x) { }
/// the messages of a byte string, front to back, up to the first incomplete or malformed one (`k` bounds the count)
pub open spec fn msgs<D: Decodable>(b: Seq<u8>, k: nat) -> Seq<D> decreases k {
    if k == 0 { Seq::empty() } else { match D::front(b) { Front::Msg(d, n) => seq![d] + msgs::<D>(b.skip(n as int), (k - 1) as nat), _ => Seq::empty() } }
}
pub open spec fn rest<D: Decodable>(b: Seq<u8>, k: nat) -> Seq<u8> decreases k {
    if k == 0 { b } else { match D::front(b) { Front::Msg(d, n) => rest::<D>(b.skip(n as int), (k - 1) as nat), _ => b } }
}
/// Feeding in two chunks and decoding in between gives the messages of the whole: no split changes, loses or repeats one.
pub proof fn theorem_split<D: Decodable>(a: Seq<u8>, x: Seq<u8>, k: nat, j: nat)
    requires k == msgs::<D>(a, k).len()
    ensures msgs::<D>(a + x, (k + j) as nat) == msgs::<D>(a, k) + msgs::<D>(rest::<D>(a, k) + x, j),
        rest::<D>(a + x, (k + j) as nat) == rest::<D>(rest::<D>(a, k) + x, j),
    decreases k
{
    if k == 0 { assert(msgs::<D>(a, 0) + msgs::<D>(a + x, j) =~= msgs::<D>(a + x, j)); }
    else {
        D::axiom_prefix(a, x);
        match D::front(a) {
            Front::Msg(d, n) => {
                let a1 = a.skip(n as int);
                assert(D::front(a + x) == Front::<D>::Msg(d, n));
                assert((a + x).skip(n as int) =~= a1 + x);
                theorem_split::<D>(a1, x, (k - 1) as nat, j);
                assert(seq![d] + (msgs::<D>(a1, (k - 1) as nat) + msgs::<D>(rest::<D>(a1, (k - 1) as nat) + x, j))
                    =~= (seq![d] + msgs::<D>(a1, (k - 1) as nat)) + msgs::<D>(rest::<D>(a1, (k - 1) as nat) + x, j));
                assert(((k - 1) as nat + j) as nat == (k + j - 1) as nat);
            }
            _ => { }
        }
    }
}
impl Decoder {
//@@ fn p2p/src/stream.rs | impl Decoder / fn new
//@ props: C15
//@ subst: .drain(.. =>> .drain_to(..
//@ spec:
    ensures r.unparsed@.len() == 0
//@@ end
//@@ fn p2p/src/stream.rs | impl Decoder / fn input
//@ props: C15
//@ subst: .drain(.. =>> .drain_to(..
//@ spec:
    ensures final(self).unparsed@ == old(self).unparsed@ + bytes@
//@@ end
//@@ fn p2p/src/stream.rs | impl Decoder / fn decode_next
//@ props: C15
//@ subst: .drain(.. =>> .drain_to(..
//@ spec:
    ensures
        // a complete message at the front is taken out, exactly its bytes
        D::front(old(self).unparsed@) matches Front::Msg(d, n) ==> r == Ok::<_, encode::Error>(Some(d)) && final(self).unparsed@ == old(self).unparsed@.skip(n as int),
        // an incomplete one is left for later
        D::front(old(self).unparsed@) == Front::<D>::More ==> r == Ok::<_, encode::Error>(None::<D>) && final(self).unparsed@ == old(self).unparsed@,
        // a malformed one is an error
        D::front(old(self).unparsed@) matches Front::Bad(e) ==> r.is_err(),
        D::front(old(self).unparsed@) matches Front::Bad(e) ==> final(self).unparsed@ == old(self).unparsed@,
//@ exit:
    settle(self);
//@@ end
}
} // verus!
fn main() {}
