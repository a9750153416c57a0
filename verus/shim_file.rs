// ---- assumed contracts on std::fs::File / std::io (an append-mode file is a byte sequence plus a cursor) ----
pub mod io {
    use vstd::prelude::*;
    #[derive(Clone, Copy)]
    pub enum ErrorKind { UnexpectedEof, Other }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for ErrorKind {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &ErrorKind) -> bool { *self == *o }
    }
    impl PartialEq for ErrorKind {
        fn eq(&self, o: &ErrorKind) -> bool { match (*self, *o) { (ErrorKind::UnexpectedEof, ErrorKind::UnexpectedEof) => true, (ErrorKind::Other, ErrorKind::Other) => true, _ => false } }
    }
    pub struct Error { pub k: ErrorKind }
    impl Error {
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k { self.k }
        #[verifier::external_body]
        pub fn new(k: ErrorKind, msg: &str) -> (r: Error) ensures r.k == k { unimplemented!() }
    }
    pub enum SeekFrom { Start(u64), End(i64) }
    pub type Result<T> = std::result::Result<T, Error>;
    #[verifier::external_body]
    pub struct Cursor { x: u8 }
    impl Cursor {
        pub uninterp spec fn data(&self) -> Seq<u8>;
        pub uninterp spec fn pos(&self) -> int;
        #[verifier::external_body]
        pub fn new(v: Vec<u8>) -> (r: Cursor) ensures r.data() == v@, r.pos() == 0 { unimplemented!() }
        #[verifier::external_body]
        pub fn read_exact(&mut self, buf: &mut Vec<u8>) -> (r: Result<()>)
            ensures
                final(buf)@.len() == old(buf)@.len(),
                final(self).data() == old(self).data(),
                r.is_ok() == (old(self).pos() + old(buf)@.len() <= old(self).data().len()),
                r.is_ok() ==> final(self).pos() == old(self).pos() + old(buf)@.len()
                    && final(buf)@ == old(self).data().subrange(old(self).pos(), old(self).pos() + old(buf)@.len()),
        { unimplemented!() }
    }
}
pub mod fs {
    use vstd::prelude::*;
    use super::io;
    #[verifier::external_body]
    pub struct File { x: u8 }
    pub struct Metadata { pub n: u64 }
    impl Metadata { pub fn len(&self) -> (r: u64) ensures r == self.n { self.n } }
    impl File {
        pub uninterp spec fn data(&self) -> Seq<u8>;
        pub uninterp spec fn pos(&self) -> int;
        #[verifier::external_body]
        pub fn seek(&mut self, to: io::SeekFrom) -> (r: io::Result<u64>)
            ensures
                final(self).data() == old(self).data(),
                r.is_err() ==> r->Err_0.k == io::ErrorKind::Other,
                r.is_ok() ==> final(self).pos() == r->Ok_0,
                r.is_ok() && to is Start ==> r->Ok_0 == to->Start_0,
                r.is_ok() && to is End ==> r->Ok_0 == old(self).data().len() + to->End_0,
        { unimplemented!() }
        /// std's read_exact reads until the buffer is full or the file ends; what it read stays in the buffer
        #[verifier::external_body]
        pub fn read_exact(&mut self, buf: &mut Vec<u8>) -> (r: io::Result<()>)
            ensures
                final(buf)@.len() == old(buf)@.len(),
                final(self).data() == old(self).data(),
                r.is_ok() ==> old(self).pos() + old(buf)@.len() <= old(self).data().len()
                    && final(buf)@ == old(self).data().subrange(old(self).pos(), old(self).pos() + old(buf)@.len()),
                r.is_err() && r->Err_0.k == io::ErrorKind::UnexpectedEof ==> old(self).pos() + old(buf)@.len() > old(self).data().len(),
                r.is_err() && r->Err_0.k == io::ErrorKind::UnexpectedEof && old(self).pos() <= old(self).data().len() ==>
                    final(buf)@.take(old(self).data().len() - old(self).pos()) == old(self).data().skip(old(self).pos()),
        { unimplemented!() }
        /// appends the rest of the file to the buffer
        #[verifier::external_body]
        pub fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: io::Result<usize>)
            ensures
                final(self).data() == old(self).data(),
                r.is_err() ==> r->Err_0.k == io::ErrorKind::Other,
                r.is_ok() ==> r->Ok_0 == (if old(self).pos() <= old(self).data().len() { old(self).data().len() - old(self).pos() } else { 0 }),
                r.is_ok() ==> final(buf)@ == old(buf)@ + (if old(self).pos() <= old(self).data().len() { old(self).data().skip(old(self).pos()) } else { Seq::empty() }),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn set_len(&mut self, n: u64) -> (r: io::Result<()>)
            ensures
                r.is_err() ==> final(self).data() == old(self).data(),
                r.is_ok() ==> final(self).data().len() == n,
                r.is_ok() && n <= old(self).data().len() ==> final(self).data() == old(self).data().take(n as int),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn sync_data(&self) -> (r: io::Result<()>) { unimplemented!() }
        /// a second handle on the same file
        #[verifier::external_body]
        pub fn try_clone(&self) -> (r: io::Result<File>) ensures r.is_ok() ==> r->Ok_0.data() == self.data() { unimplemented!() }
        #[verifier::external_body]
        pub fn metadata(&self) -> (r: io::Result<Metadata>) ensures r.is_ok() ==> r->Ok_0.n == self.data().len() { unimplemented!() }
    }
    /// a file is never longer than i64::MAX bytes
    pub broadcast axiom fn axiom_file_len(f: File) ensures #[trigger] f.data().len() <= 0x7fff_ffff_ffff_ffff;
}
