//! The MPI C interface as rsmpi sees it, on top of the simulator.
#![allow(non_upper_case_globals, non_camel_case_types, non_snake_case, clippy::all)]
#![allow(static_mut_refs, unused_variables)]
use std::os::raw::*;
use std::rc::Rc;

use simcore::mpi::*;
use simcore::*;

macro_rules! handle {
    ($($n:ident),*) => {$(
        #[repr(transparent)]
        #[derive(Debug, Copy, Clone, PartialEq)]
        pub struct $n(pub *mut c_void);
    )*};
}
handle!(MPI_Comm, MPI_Datatype, MPI_Errhandler, MPI_Group, MPI_Info, MPI_Op, MPI_Request, MPI_Message, MPI_Win);
pub type MPI_File = *mut c_void;
pub type MPI_Aint = isize;
pub type MPI_Count = c_longlong;
pub type MPI_Offset = c_longlong;
pub type RSMPI_Fint = c_int;
pub type MPI_User_function =
    Option<unsafe extern "C" fn(*mut c_void, *mut c_void, *mut c_int, *mut MPI_Datatype)>;

#[repr(C)]
#[derive(Debug, Copy, Clone, PartialEq)]
pub struct ompi_status_public_t {
    pub MPI_SOURCE: c_int,
    pub MPI_TAG: c_int,
    pub MPI_ERROR: c_int,
    pub _cancelled: c_int,
    pub _ucount: usize,
}
pub type MPI_Status = ompi_status_public_t;

pub const MPI_MAX_OBJECT_NAME: u32 = 64;
pub const MPI_UNDEFINED: i32 = -32766;
pub const MPI_SUCCESS: u32 = 0;
pub const MPI_UNIVERSE_SIZE: u32 = 6;

const fn p(x: usize) -> *mut c_void {
    x as *mut c_void
}
macro_rules! types {
    ($($n:ident = $v:expr, $b:ident;)*) => {
        $(pub const $n: MPI_Datatype = MPI_Datatype(p($v));)*
        fn basic_of(h: usize) -> Option<Basic> {
            match h { $($v => Some(Basic::$b),)* 14 => Some(Basic::Packed), _ => None }
        }
    };
}
types! {
    RSMPI_C_BOOL = 1, Bool; RSMPI_FLOAT = 2, F32; RSMPI_DOUBLE = 3, F64;
    RSMPI_INT8_T = 4, I8; RSMPI_INT16_T = 5, I16; RSMPI_INT32_T = 6, I32; RSMPI_INT64_T = 7, I64;
    RSMPI_UINT8_T = 8, U8; RSMPI_UINT16_T = 9, U16; RSMPI_UINT32_T = 10, U32; RSMPI_UINT64_T = 11, U64;
    RSMPI_FLOAT_COMPLEX = 12, C32; RSMPI_DOUBLE_COMPLEX = 13, C64;
}
pub const RSMPI_PACKED: MPI_Datatype = MPI_Datatype(p(14));
pub const RSMPI_DATATYPE_NULL: MPI_Datatype = MPI_Datatype(p(0));
pub const RSMPI_COMM_WORLD: MPI_Comm = MPI_Comm(p(WORLD as usize));
pub const RSMPI_COMM_SELF: MPI_Comm = MPI_Comm(p(2));
pub const RSMPI_COMM_NULL: MPI_Comm = MPI_Comm(p(0));
pub const RSMPI_COMM_TYPE_SHARED: c_int = 0;
pub const RSMPI_GROUP_EMPTY: MPI_Group = MPI_Group(p(1));
pub const RSMPI_GROUP_NULL: MPI_Group = MPI_Group(p(0));
pub const RSMPI_UNDEFINED: c_int = MPI_UNDEFINED;
pub const RSMPI_PROC_NULL: c_int = PROC_NULL;
pub const RSMPI_ANY_SOURCE: c_int = ANY_SOURCE;
pub const RSMPI_ANY_TAG: c_int = ANY_TAG;
pub const RSMPI_MESSAGE_NULL: MPI_Message = MPI_Message(p(0));
pub const RSMPI_MESSAGE_NO_PROC: MPI_Message = MPI_Message(p(1));
pub const RSMPI_REQUEST_NULL: MPI_Request = MPI_Request(p(0));
pub const RSMPI_STATUS_IGNORE: *mut MPI_Status = std::ptr::null_mut();
pub const RSMPI_STATUSES_IGNORE: *mut MPI_Status = std::ptr::null_mut();
pub const RSMPI_IDENT: c_int = 0;
pub const RSMPI_CONGRUENT: c_int = 1;
pub const RSMPI_SIMILAR: c_int = 2;
pub const RSMPI_UNEQUAL: c_int = 3;
pub const RSMPI_THREAD_SINGLE: c_int = 0;
pub const RSMPI_THREAD_FUNNELED: c_int = 1;
pub const RSMPI_THREAD_SERIALIZED: c_int = 2;
pub const RSMPI_THREAD_MULTIPLE: c_int = 3;
pub const RSMPI_GRAPH: c_int = 2;
pub const RSMPI_CART: c_int = 1;
pub const RSMPI_DIST_GRAPH: c_int = 3;
pub const RSMPI_MAX_LIBRARY_VERSION_STRING: c_int = 256;
pub const RSMPI_MAX_PROCESSOR_NAME: c_int = 256;
pub const RSMPI_MAX: MPI_Op = MPI_Op(p(1));
pub const RSMPI_MIN: MPI_Op = MPI_Op(p(2));
pub const RSMPI_SUM: MPI_Op = MPI_Op(p(3));
pub const RSMPI_PROD: MPI_Op = MPI_Op(p(4));
pub const RSMPI_LAND: MPI_Op = MPI_Op(p(5));
pub const RSMPI_BAND: MPI_Op = MPI_Op(p(6));
pub const RSMPI_LOR: MPI_Op = MPI_Op(p(7));
pub const RSMPI_BOR: MPI_Op = MPI_Op(p(8));
pub const RSMPI_LXOR: MPI_Op = MPI_Op(p(9));
pub const RSMPI_BXOR: MPI_Op = MPI_Op(p(10));
pub const RSMPI_ERRORS_ARE_FATAL: MPI_Errhandler = MPI_Errhandler(p(1));
pub const RSMPI_ERRORS_RETURN: MPI_Errhandler = MPI_Errhandler(p(2));
pub const RSMPI_INFO_NULL: MPI_Info = MPI_Info(p(0));

mod gen;
pub use gen::*;

const OK: c_int = 0;

pub fn ty_of(d: MPI_Datatype) -> Ty {
    let h = d.0 as usize;
    if let Some(b) = basic_of(h) {
        return Rc::new(TypeDesc::basic(b));
    }
    assert!(h > 4096, "MPI: invalid datatype");
    unsafe { (*(d.0 as *const Ty)).clone() }
}
fn new_ty(t: TypeDesc) -> MPI_Datatype {
    MPI_Datatype(Box::into_raw(Box::new(Rc::new(t))) as *mut c_void)
}
fn comm_id(c: MPI_Comm) -> u64 {
    assert!(!finalized_here() || gone(), "MPI: communication after MPI_Finalize");
    let h = c.0 as usize as u64;
    if h == 2 {
        self_comm(sim().cur)
    } else {
        h
    }
}
unsafe fn put_status(s: *mut MPI_Status, st: St) {
    if !s.is_null() {
        *s = MPI_Status {
            MPI_SOURCE: st.source,
            MPI_TAG: st.tag,
            MPI_ERROR: 0,
            _cancelled: 0,
            _ucount: st.bytes,
        };
    }
}
fn rid(r: MPI_Request) -> u64 {
    r.0 as usize as u64
}
fn rh(id: u64) -> MPI_Request {
    MPI_Request(id as usize as *mut c_void)
}
fn gone() -> bool {
    // Destructors of a panicking rank must not talk to anybody any more.
    std::thread::panicking()
}

// ---- environment ----
/// What the library keeps per process, that is, per rank of a job.
struct Proc {
    key: (u64, usize),
    initialized: bool,
    finalized: bool,
    buffer: (*mut c_void, c_int),
}
static mut PROCS: Vec<Proc> = vec![];
#[allow(static_mut_refs)]
fn proc() -> &'static mut Proc {
    let key = if simcore::sched::in_rank() {
        (simcore::sched::job_id(), simcore::sched::current_rank())
    } else {
        (0, usize::MAX)
    };
    let v = unsafe { &mut PROCS };
    if let Some(i) = v.iter().position(|p| p.key == key) {
        return &mut v[i];
    }
    v.retain(|p| p.key.0 == key.0 || p.key.1 == usize::MAX);
    v.push(Proc { key, initialized: false, finalized: false, buffer: (std::ptr::null_mut(), 0) });
    v.last_mut().unwrap()
}
/// Has this rank left the library?
pub fn finalized_here() -> bool {
    proc().finalized
}
/// Has this rank initialized the library itself?
pub fn initialized_here() -> bool {
    proc().initialized
}
pub unsafe fn MPI_Init_thread(_: *mut c_int, _: *mut *mut *mut c_char, required: c_int, provided: *mut c_int) -> c_int {
    proc().initialized = true;
    *provided = required;
    OK
}
pub unsafe fn MPI_Initialized(f: *mut c_int) -> c_int {
    *f = proc().initialized as c_int;
    OK
}
pub unsafe fn MPI_Finalized(f: *mut c_int) -> c_int {
    *f = proc().finalized as c_int;
    OK
}
pub unsafe fn MPI_Finalize() -> c_int {
    proc().finalized = true;
    OK
}
pub unsafe fn MPI_Query_thread(p: *mut c_int) -> c_int {
    *p = RSMPI_THREAD_MULTIPLE;
    OK
}
pub unsafe fn MPI_Abort(_: MPI_Comm, code: c_int) -> c_int {
    die(Outcome::Aborted(sim().cur))
}
pub unsafe fn MPI_Buffer_attach(b: *mut c_void, n: c_int) -> c_int {
    proc().buffer = (b, n);
    OK
}
pub unsafe fn MPI_Buffer_detach(b: *mut c_void, n: *mut c_int) -> c_int {
    let p = proc();
    *(b as *mut *mut c_void) = p.buffer.0;
    *n = p.buffer.1;
    p.buffer = (std::ptr::null_mut(), 0);
    OK
}
pub unsafe fn RSMPI_Wtime() -> f64 {
    clock_ns().unwrap_or(0) as f64 * 1e-9
}
pub unsafe fn RSMPI_Wtick() -> f64 {
    1e-9
}
pub unsafe fn MPI_Get_version(a: *mut c_int, b: *mut c_int) -> c_int {
    *a = 3;
    *b = 1;
    OK
}
pub unsafe fn MPI_Get_library_version(s: *mut c_char, n: *mut c_int) -> c_int {
    *s = b's' as c_char;
    *n = 1;
    OK
}
pub unsafe fn MPI_Get_processor_name(s: *mut c_char, n: *mut c_int) -> c_int {
    *s = b's' as c_char;
    *n = 1;
    OK
}
pub unsafe fn MPI_Comm_get_attr(_: MPI_Comm, _: c_int, _: *mut c_void, flag: *mut c_int) -> c_int {
    *flag = 0;
    OK
}
pub unsafe fn MPI_Comm_get_parent(c: *mut MPI_Comm) -> c_int {
    *c = RSMPI_COMM_NULL;
    OK
}
pub unsafe fn MPI_Comm_test_inter(_: MPI_Comm, f: *mut c_int) -> c_int {
    *f = 0;
    OK
}
pub unsafe fn MPI_Topo_test(_: MPI_Comm, f: *mut c_int) -> c_int {
    *f = RSMPI_UNDEFINED;
    OK
}
pub unsafe fn MPI_Comm_rank(c: MPI_Comm, r: *mut c_int) -> c_int {
    *r = sim().comm_rank(comm_id(c));
    OK
}
pub unsafe fn MPI_Comm_size(c: MPI_Comm, r: *mut c_int) -> c_int {
    *r = sim().comm(comm_id(c)).members.len() as c_int;
    OK
}
pub unsafe fn MPI_Comm_compare(a: MPI_Comm, b: MPI_Comm, r: *mut c_int) -> c_int {
    *r = if a == b {
        RSMPI_IDENT
    } else if sim().comm(comm_id(a)).members == sim().comm(comm_id(b)).members {
        RSMPI_CONGRUENT
    } else {
        RSMPI_UNEQUAL
    };
    OK
}
pub unsafe fn MPI_Comm_free(c: *mut MPI_Comm) -> c_int {
    *c = RSMPI_COMM_NULL;
    OK
}
pub unsafe fn MPI_Comm_disconnect(c: *mut MPI_Comm) -> c_int {
    *c = RSMPI_COMM_NULL;
    OK
}
pub unsafe fn MPI_Comm_dup(c: MPI_Comm, out: *mut MPI_Comm) -> c_int {
    MPI_Barrier(c);
    let id = comm_id(c);
    let k = sim().coll_index(id);
    let m = sim().comm(id).members;
    *out = MPI_Comm(p(sim().new_comm(id, k, m) as usize));
    OK
}
pub unsafe fn MPI_Comm_split(c: MPI_Comm, color: c_int, key: c_int, out: *mut MPI_Comm) -> c_int {
    let id = comm_id(c);
    let size = sim().comm(id).members.len();
    let mut all = vec![0i32; 2 * size];
    let mine = [color, key];
    MPI_Allgather(mine.as_ptr() as _, 2, RSMPI_INT32_T, all.as_mut_ptr() as _, 2, RSMPI_INT32_T, c);
    if color == RSMPI_UNDEFINED {
        *out = RSMPI_COMM_NULL;
        return OK;
    }
    let members = sim().comm(id).members;
    let mut v: Vec<(i32, usize, usize)> = (0..size)
        .filter(|i| all[2 * i] == color)
        .map(|i| (all[2 * i + 1], i, members[i]))
        .collect();
    v.sort();
    let k = sim().coll_index(id);
    *out = MPI_Comm(p(sim().new_comm(id, k, v.into_iter().map(|x| x.2).collect()) as usize));
    OK
}

// ---- datatypes ----
unsafe fn arr<'a, T>(x: *const T, n: c_int) -> &'a [T] {
    if n <= 0 {
        &[]
    } else {
        std::slice::from_raw_parts(x, n as usize)
    }
}
pub unsafe fn MPI_Type_commit(t: *mut MPI_Datatype) -> c_int {
    if ((*t).0 as usize) > 4096 {
        let ty = &mut *((*t).0 as *mut Ty);
        let mut d = (**ty).clone();
        d.committed = true;
        *ty = Rc::new(d);
    }
    OK
}
pub unsafe fn MPI_Type_free(t: *mut MPI_Datatype) -> c_int {
    if ((*t).0 as usize) > 4096 {
        drop(Box::from_raw((*t).0 as *mut Ty));
    }
    *t = RSMPI_DATATYPE_NULL;
    OK
}
pub unsafe fn MPI_Type_dup(t: MPI_Datatype, out: *mut MPI_Datatype) -> c_int {
    *out = new_ty((*ty_of(t)).clone());
    OK
}
pub unsafe fn MPI_Type_contiguous(n: c_int, t: MPI_Datatype, out: *mut MPI_Datatype) -> c_int {
    *out = new_ty(TypeDesc::blocks(&[(0, n as usize, &ty_of(t))], false));
    OK
}
pub unsafe fn MPI_Type_vector(n: c_int, len: c_int, stride: c_int, t: MPI_Datatype, out: *mut MPI_Datatype) -> c_int {
    let ty = ty_of(t);
    let b: Vec<_> = (0..n as isize).map(|i| (i * stride as isize * ty.extent(), len as usize, &*ty)).collect();
    *out = new_ty(TypeDesc::blocks(&b, false));
    OK
}
pub unsafe fn MPI_Type_create_hvector(n: c_int, len: c_int, stride: MPI_Aint, t: MPI_Datatype, out: *mut MPI_Datatype) -> c_int {
    let ty = ty_of(t);
    let b: Vec<_> = (0..n as isize).map(|i| (i * stride, len as usize, &*ty)).collect();
    *out = new_ty(TypeDesc::blocks(&b, false));
    OK
}
pub unsafe fn MPI_Type_indexed(n: c_int, lens: *const c_int, disp: *const c_int, t: MPI_Datatype, out: *mut MPI_Datatype) -> c_int {
    let ty = ty_of(t);
    let b: Vec<_> = arr(lens, n)
        .iter()
        .zip(arr(disp, n))
        .map(|(l, d)| (*d as isize * ty.extent(), *l as usize, &*ty))
        .collect();
    *out = new_ty(TypeDesc::blocks(&b, false));
    OK
}
pub unsafe fn MPI_Type_create_hindexed(n: c_int, lens: *const c_int, disp: *const MPI_Aint, t: MPI_Datatype, out: *mut MPI_Datatype) -> c_int {
    let ty = ty_of(t);
    let b: Vec<_> = arr(lens, n)
        .iter()
        .zip(arr(disp, n))
        .map(|(l, d)| (*d, *l as usize, &*ty))
        .collect();
    *out = new_ty(TypeDesc::blocks(&b, false));
    OK
}
pub unsafe fn MPI_Type_create_indexed_block(n: c_int, len: c_int, disp: *const c_int, t: MPI_Datatype, out: *mut MPI_Datatype) -> c_int {
    let ty = ty_of(t);
    let b: Vec<_> = arr(disp, n).iter().map(|d| (*d as isize * ty.extent(), len as usize, &*ty)).collect();
    *out = new_ty(TypeDesc::blocks(&b, false));
    OK
}
pub unsafe fn MPI_Type_create_hindexed_block(n: c_int, len: c_int, disp: *const MPI_Aint, t: MPI_Datatype, out: *mut MPI_Datatype) -> c_int {
    let ty = ty_of(t);
    let b: Vec<_> = arr(disp, n).iter().map(|d| (*d, len as usize, &*ty)).collect();
    *out = new_ty(TypeDesc::blocks(&b, false));
    OK
}
pub unsafe fn MPI_Type_create_struct(n: c_int, lens: *const c_int, disp: *const MPI_Aint, types: *const MPI_Datatype, out: *mut MPI_Datatype) -> c_int {
    let tys: Vec<Ty> = arr(types, n).iter().map(|t| ty_of(*t)).collect();
    let b: Vec<_> = (0..n as usize)
        .map(|i| (*disp.add(i), *lens.add(i) as usize, &*tys[i]))
        .collect();
    *out = new_ty(TypeDesc::blocks(&b, true));
    OK
}
pub unsafe fn MPI_Get_address(x: *const c_void, out: *mut MPI_Aint) -> c_int {
    *out = x as isize;
    OK
}
pub unsafe fn MPI_Get_count(s: *const MPI_Status, t: MPI_Datatype, n: *mut c_int) -> c_int {
    let size = ty_of(t).size;
    let b = (*s)._ucount;
    *n = if size == 0 {
        0
    } else if b % size != 0 {
        MPI_UNDEFINED
    } else {
        (b / size) as c_int
    };
    OK
}
pub unsafe fn MPI_Pack_size(n: c_int, t: MPI_Datatype, _: MPI_Comm, out: *mut c_int) -> c_int {
    *out = n * ty_of(t).size as c_int;
    OK
}
pub unsafe fn MPI_Pack(i: *const c_void, n: c_int, t: MPI_Datatype, out: *mut c_void, size: c_int, pos: *mut c_int, _: MPI_Comm) -> c_int {
    let b = ty_of(t).pack(i as _, n as usize);
    assert!(*pos as usize + b.len() <= size as usize, "MPI_Pack: buffer too small");
    std::ptr::copy_nonoverlapping(b.as_ptr(), (out as *mut u8).add(*pos as usize), b.len());
    *pos += b.len() as c_int;
    OK
}
pub unsafe fn MPI_Unpack(i: *const c_void, size: c_int, pos: *mut c_int, out: *mut c_void, n: c_int, t: MPI_Datatype, _: MPI_Comm) -> c_int {
    let ty = ty_of(t);
    let len = ty.size * n as usize;
    assert!(*pos as usize + len <= size as usize, "MPI_Unpack: message too short");
    let s = std::slice::from_raw_parts((i as *const u8).add(*pos as usize), len);
    ty.unpack(s, out as _, n as usize);
    *pos += len as c_int;
    OK
}

// ---- point to point ----
unsafe fn do_isend(b: *const c_void, n: c_int, t: MPI_Datatype, d: c_int, tag: c_int, c: MPI_Comm, r: *mut MPI_Request, mode: char) -> c_int {
    if gone() {
        *r = RSMPI_REQUEST_NULL;
        return OK;
    }
    point("isend", d as u64, tag as u64);
    *r = rh(sim().start_send(b as _, n, &ty_of(t), d, tag, comm_id(c), mode, false));
    OK
}
unsafe fn do_send(b: *const c_void, n: c_int, t: MPI_Datatype, d: c_int, tag: c_int, c: MPI_Comm, mode: char) -> c_int {
    if gone() {
        return OK;
    }
    point("send", d as u64, tag as u64);
    let r = sim().start_send(b as _, n, &ty_of(t), d, tag, comm_id(c), mode, true);
    block_on(Wait::Req(r));
    sim().req_finish(r);
    OK
}
macro_rules! sends {
    ($($b:ident $i:ident $m:expr;)*) => {$(
        pub unsafe fn $b(b: *const c_void, n: c_int, t: MPI_Datatype, d: c_int, tag: c_int, c: MPI_Comm) -> c_int {
            do_send(b, n, t, d, tag, c, $m)
        }
        pub unsafe fn $i(b: *const c_void, n: c_int, t: MPI_Datatype, d: c_int, tag: c_int, c: MPI_Comm, r: *mut MPI_Request) -> c_int {
            do_isend(b, n, t, d, tag, c, r, $m)
        }
    )*};
}
sends! { MPI_Send MPI_Isend ' '; MPI_Ssend MPI_Issend 's'; MPI_Bsend MPI_Ibsend 'b'; MPI_Rsend MPI_Irsend ' '; }

pub unsafe fn MPI_Recv(b: *mut c_void, n: c_int, t: MPI_Datatype, s: c_int, tag: c_int, c: MPI_Comm, st: *mut MPI_Status) -> c_int {
    if gone() {
        return OK;
    }
    point("recv", s as u64, tag as u64);
    if s == PROC_NULL {
        put_status(st, St { source: PROC_NULL, tag: ANY_TAG, bytes: 0 });
        return OK;
    }
    let comm = comm_id(c);
    let ty = ty_of(t);
    loop {
        if let Some(x) = sim().recv_now(b as _, n, &ty, s, tag, comm) {
            put_status(st, x);
            return OK;
        }
        block_on(Wait::Match { comm, src: s, tag });
    }
}
pub unsafe fn MPI_Irecv(b: *mut c_void, n: c_int, t: MPI_Datatype, s: c_int, tag: c_int, c: MPI_Comm, r: *mut MPI_Request) -> c_int {
    if gone() {
        *r = RSMPI_REQUEST_NULL;
        return OK;
    }
    point("irecv", s as u64, tag as u64);
    *r = rh(sim().post_recv(b as _, n, &ty_of(t), s, tag, comm_id(c)));
    OK
}
pub unsafe fn MPI_Probe(s: c_int, tag: c_int, c: MPI_Comm, st: *mut MPI_Status) -> c_int {
    point("probe", s as u64, tag as u64);
    let comm = comm_id(c);
    loop {
        if let Some(x) = sim().probe(s, tag, comm) {
            put_status(st, x);
            return OK;
        }
        block_on(Wait::Match { comm, src: s, tag });
    }
}
pub unsafe fn MPI_Iprobe(s: c_int, tag: c_int, c: MPI_Comm, flag: *mut c_int, st: *mut MPI_Status) -> c_int {
    point("iprobe", s as u64, tag as u64);
    match sim().probe(s, tag, comm_id(c)) {
        Some(x) => {
            *flag = 1;
            put_status(st, x);
        }
        None => {
            *flag = 0;
            poll_failed();
        }
    }
    OK
}
pub unsafe fn MPI_Mprobe(s: c_int, tag: c_int, c: MPI_Comm, m: *mut MPI_Message, st: *mut MPI_Status) -> c_int {
    point("mprobe", s as u64, tag as u64);
    let comm = comm_id(c);
    loop {
        if let Some((id, x)) = sim().mprobe(s, tag, comm) {
            put_status(st, x);
            *m = MPI_Message(p(id as usize));
            return OK;
        }
        if gone() {
            panic!("MPI used while panicking");
        }
        block_on(Wait::Match { comm, src: s, tag });
    }
}
pub unsafe fn MPI_Improbe(s: c_int, tag: c_int, c: MPI_Comm, flag: *mut c_int, m: *mut MPI_Message, st: *mut MPI_Status) -> c_int {
    point("improbe", s as u64, tag as u64);
    match sim().mprobe(s, tag, comm_id(c)) {
        Some((id, x)) => {
            *flag = 1;
            *m = MPI_Message(p(id as usize));
            put_status(st, x);
        }
        None => {
            *flag = 0;
            poll_failed();
        }
    }
    OK
}
pub unsafe fn MPI_Mrecv(b: *mut c_void, n: c_int, t: MPI_Datatype, m: *mut MPI_Message, st: *mut MPI_Status) -> c_int {
    point("mrecv", n as u64, 0);
    let x = sim().mrecv((*m).0 as usize as u64, b as _, n, &ty_of(t));
    *m = RSMPI_MESSAGE_NULL;
    put_status(st, x);
    OK
}
pub unsafe fn MPI_Imrecv(b: *mut c_void, n: c_int, t: MPI_Datatype, m: *mut MPI_Message, r: *mut MPI_Request) -> c_int {
    let x = sim().mrecv((*m).0 as usize as u64, b as _, n, &ty_of(t));
    *m = RSMPI_MESSAGE_NULL;
    // completes at once
    let id = sim().post_recv(b as _, 0, &ty_of(t), PROC_NULL, 0, WORLD);
    sim().net.reqs.get_mut(&id).unwrap().status = x;
    *r = rh(id);
    OK
}
pub unsafe fn MPI_Sendrecv(sb: *const c_void, sn: c_int, st: MPI_Datatype, d: c_int, stag: c_int, rb: *mut c_void, rn: c_int, rt: MPI_Datatype, s: c_int, rtag: c_int, c: MPI_Comm, status: *mut MPI_Status) -> c_int {
    let mut r = RSMPI_REQUEST_NULL;
    MPI_Isend(sb, sn, st, d, stag, c, &mut r);
    MPI_Recv(rb, rn, rt, s, rtag, c, status);
    MPI_Wait(&mut r, std::ptr::null_mut())
}
pub unsafe fn MPI_Sendrecv_replace(b: *mut c_void, n: c_int, t: MPI_Datatype, d: c_int, stag: c_int, s: c_int, rtag: c_int, c: MPI_Comm, status: *mut MPI_Status) -> c_int {
    point("sendrecv", d as u64, stag as u64);
    let r = sim().start_send(b as _, n, &ty_of(t), d, stag, comm_id(c), 'b', true);
    block_on(Wait::Req(r));
    sim().req_finish(r);
    MPI_Recv(b, n, t, s, rtag, c, status)
}
unsafe fn finish(r: *mut MPI_Request, st: *mut MPI_Status) {
    let x = sim().req_finish(rid(*r));
    put_status(st, x);
    *r = RSMPI_REQUEST_NULL;
}
pub unsafe fn MPI_Wait(r: *mut MPI_Request, st: *mut MPI_Status) -> c_int {
    if gone() {
        *r = RSMPI_REQUEST_NULL;
        return OK;
    }
    if *r == RSMPI_REQUEST_NULL {
        return OK;
    }
    point("wait", 0, 0);
    block_on(Wait::Req(rid(*r)));
    finish(r, st);
    OK
}
pub unsafe fn MPI_Test(r: *mut MPI_Request, flag: *mut c_int, st: *mut MPI_Status) -> c_int {
    *flag = 1;
    if gone() || *r == RSMPI_REQUEST_NULL {
        *r = RSMPI_REQUEST_NULL;
        return OK;
    }
    point("test", 0, 0);
    if sim().req_done(rid(*r)) {
        finish(r, st);
    } else {
        *flag = 0;
        poll_failed();
    }
    OK
}
unsafe fn active(n: c_int, r: *mut MPI_Request) -> Vec<(usize, u64)> {
    (0..n as usize)
        .filter(|i| *r.add(*i) != RSMPI_REQUEST_NULL)
        .map(|i| (i, rid(*r.add(i))))
        .collect()
}
unsafe fn sti(st: *mut MPI_Status, i: usize) -> *mut MPI_Status {
    if st.is_null() {
        st
    } else {
        st.add(i)
    }
}
pub unsafe fn MPI_Waitall(n: c_int, r: *mut MPI_Request, st: *mut MPI_Status) -> c_int {
    if gone() {
        return OK;
    }
    point("waitall", n as u64, 0);
    let a = active(n, r);
    block_on(Wait::AllReq(a.iter().map(|x| x.1).collect()));
    for (i, _) in a {
        finish(r.add(i), sti(st, i));
    }
    OK
}
pub unsafe fn MPI_Testall(n: c_int, r: *mut MPI_Request, flag: *mut c_int, st: *mut MPI_Status) -> c_int {
    point("testall", n as u64, 0);
    let a = active(n, r);
    if a.iter().all(|x| sim().req_done(x.1)) {
        *flag = 1;
        for (i, _) in a {
            finish(r.add(i), sti(st, i));
        }
    } else {
        *flag = 0;
        poll_failed();
    }
    OK
}
unsafe fn pick_done(n: c_int, r: *mut MPI_Request) -> Option<usize> {
    let d: Vec<usize> = active(n, r).into_iter().filter(|x| sim().req_done(x.1)).map(|x| x.0).collect();
    if d.is_empty() {
        return None;
    }
    let p = sim().env.p_pick;
    let k = sim().ch.choose("waitany", d.len() as u64, p);
    Some(d[k as usize])
}
pub unsafe fn MPI_Waitany(n: c_int, r: *mut MPI_Request, idx: *mut c_int, st: *mut MPI_Status) -> c_int {
    point("waitany", n as u64, 0);
    let a = active(n, r);
    if a.is_empty() || gone() {
        *idx = MPI_UNDEFINED;
        return OK;
    }
    block_on(Wait::AnyReq(a.iter().map(|x| x.1).collect()));
    let i = pick_done(n, r).unwrap();
    finish(r.add(i), st);
    *idx = i as c_int;
    OK
}
pub unsafe fn MPI_Testany(n: c_int, r: *mut MPI_Request, idx: *mut c_int, flag: *mut c_int, st: *mut MPI_Status) -> c_int {
    point("testany", n as u64, 0);
    if active(n, r).is_empty() {
        *idx = MPI_UNDEFINED;
        *flag = 1;
        return OK;
    }
    match pick_done(n, r) {
        Some(i) => {
            finish(r.add(i), st);
            *idx = i as c_int;
            *flag = 1;
        }
        None => {
            *idx = MPI_UNDEFINED;
            *flag = 0;
            poll_failed();
        }
    }
    OK
}
pub unsafe fn MPI_Testsome(n: c_int, r: *mut MPI_Request, cnt: *mut c_int, idx: *mut c_int, st: *mut MPI_Status) -> c_int {
    point("testsome", n as u64, 0);
    let a = active(n, r);
    if a.is_empty() {
        *cnt = MPI_UNDEFINED;
        return OK;
    }
    let d: Vec<usize> = a.into_iter().filter(|x| sim().req_done(x.1)).map(|x| x.0).collect();
    for (k, i) in d.iter().enumerate() {
        *idx.add(k) = *i as c_int;
        finish(r.add(*i), sti(st, k));
    }
    *cnt = d.len() as c_int;
    if d.is_empty() {
        poll_failed();
    }
    OK
}
pub unsafe fn MPI_Waitsome(n: c_int, r: *mut MPI_Request, cnt: *mut c_int, idx: *mut c_int, st: *mut MPI_Status) -> c_int {
    let a = active(n, r);
    if !a.is_empty() && !gone() {
        block_on(Wait::AnyReq(a.iter().map(|x| x.1).collect()));
    }
    MPI_Testsome(n, r, cnt, idx, st)
}
pub unsafe fn MPI_Cancel(_: *mut MPI_Request) -> c_int {
    OK
}
pub unsafe fn MPI_Request_free(r: *mut MPI_Request) -> c_int {
    *r = RSMPI_REQUEST_NULL;
    OK
}

// ---- collectives ----
#[derive(Clone, Copy)]
struct Ptr(*mut c_void);
unsafe fn part(b: *const c_void, n: c_int, t: &Ty) -> Payload {
    assert!(n >= 0, "MPI: negative count");
    assert!(t.committed, "MPI: datatype not committed");
    Payload {
        bytes: t.pack(b as _, n as usize),
        ty: t.clone(),
        count: n as usize,
    }
}
unsafe fn store(pl: &Payload, buf: *mut c_void, off: isize, n: usize, t: &Ty) {
    if pl.bytes.len() > n * t.size {
        sim().violation(
            "truncation",
            format!("collective: {} bytes received where {} were expected", pl.bytes.len(), n * t.size),
        );
        panic!("MPI_ERR_TRUNCATE in a collective");
    }
    if pl.bytes.len() < n * t.size {
        sim().violation(
            "collective_mismatch",
            format!("collective: {} bytes received where {} were expected", pl.bytes.len(), n * t.size),
        );
    }
    if !compatible(&pl.ty, pl.count, t, n) {
        sim().violation("type_mismatch", "collective: datatypes differ between ranks".into());
    }
    t.unpack(&pl.bytes, (buf as *mut u8).offset(off), n);
}
fn contrib<'a>(c: &'a Coll, r: usize) -> &'a Contribution {
    c.contrib[r].as_ref().unwrap()
}
unsafe fn start(c: MPI_Comm, kind: &'static str, root: c_int, op: usize, parts: Vec<Payload>, f: Box<dyn FnOnce(&Coll)>) -> u64 {
    point(kind, root as u64, op as u64);
    sim().coll_start(comm_id(c), CollSig { kind, root, op }, parts, f)
}
unsafe fn fin(id: u64) -> c_int {
    block_on(Wait::Req(id));
    sim().req_finish(id);
    OK
}
unsafe fn csize(c: MPI_Comm) -> usize {
    sim().comm(comm_id(c)).members.len()
}
unsafe fn crank(c: MPI_Comm) -> usize {
    sim().comm_rank(comm_id(c)) as usize
}

macro_rules! coll {
    ($b:ident $i:ident ($($a:ident: $t:ty),*) $body:block) => {
        pub unsafe fn $b($($a: $t),*) -> c_int {
            if gone() { return OK; }
            let id = (|| $body)();
            fin(id)
        }
        pub unsafe fn $i($($a: $t),*, request: *mut MPI_Request) -> c_int {
            if gone() { *request = RSMPI_REQUEST_NULL; return OK; }
            let id = (|| $body)();
            *request = rh(id);
            OK
        }
    };
}
coll! { MPI_Barrier MPI_Ibarrier (c: MPI_Comm) {
    start(c, "barrier", 0, 0, vec![], Box::new(|_| ()))
}}
coll! { MPI_Allgather MPI_Iallgather (sb: *const c_void, sn: c_int, st: MPI_Datatype, rb: *mut c_void, rn: c_int, rt: MPI_Datatype, c: MPI_Comm) {
    let (t, rt, n) = (ty_of(st), ty_of(rt), csize(c));
    let pl = part(sb, sn, &t);
    start(c, "allgather", 0, 0, vec![pl], Box::new(move |co| {
        for r in 0..n { unsafe { store(&contrib(co, r).parts[0], rb, r as isize * rn as isize * rt.extent(), rn as usize, &rt) } }
    }))
}}
coll! { MPI_Allgatherv MPI_Iallgatherv (sb: *const c_void, sn: c_int, st: MPI_Datatype, rb: *mut c_void, rn: *const c_int, disp: *const c_int, rt: MPI_Datatype, c: MPI_Comm) {
    let (t, rt, n) = (ty_of(st), ty_of(rt), csize(c));
    let pl = part(sb, sn, &t);
    let counts = arr(rn, n as c_int).to_vec();
    let d = arr(disp, n as c_int).to_vec();
    start(c, "allgatherv", 0, 0, vec![pl], Box::new(move |co| {
        for r in 0..n { unsafe { store(&contrib(co, r).parts[0], rb, d[r] as isize * rt.extent(), counts[r] as usize, &rt) } }
    }))
}}
coll! { MPI_Gather MPI_Igather (sb: *const c_void, sn: c_int, st: MPI_Datatype, rb: *mut c_void, rn: c_int, rt: MPI_Datatype, root: c_int, c: MPI_Comm) {
    let n = csize(c);
    let me = crank(c);
    let pl = part(sb, sn, &ty_of(st));
    let rt = if me as c_int == root { Some(ty_of(rt)) } else { None };
    start(c, "gather", root, 0, vec![pl], Box::new(move |co| {
        if let Some(rt) = rt { for r in 0..n { unsafe { store(&contrib(co, r).parts[0], rb, r as isize * rn as isize * rt.extent(), rn as usize, &rt) } } }
    }))
}}
coll! { MPI_Gatherv MPI_Igatherv (sb: *const c_void, sn: c_int, st: MPI_Datatype, rb: *mut c_void, rn: *const c_int, disp: *const c_int, rt: MPI_Datatype, root: c_int, c: MPI_Comm) {
    let n = csize(c);
    let me = crank(c);
    let pl = part(sb, sn, &ty_of(st));
    let x = if me as c_int == root { Some((ty_of(rt), arr(rn, n as c_int).to_vec(), arr(disp, n as c_int).to_vec())) } else { None };
    start(c, "gatherv", root, 0, vec![pl], Box::new(move |co| {
        if let Some((rt, counts, d)) = x { for r in 0..n { unsafe { store(&contrib(co, r).parts[0], rb, d[r] as isize * rt.extent(), counts[r] as usize, &rt) } } }
    }))
}}
coll! { MPI_Bcast MPI_Ibcast (b: *mut c_void, n: c_int, t: MPI_Datatype, root: c_int, c: MPI_Comm) {
    let me = crank(c);
    let t = ty_of(t);
    let parts = if me as c_int == root { vec![part(b, n, &t)] } else { vec![] };
    start(c, "bcast", root, 0, parts, Box::new(move |co| {
        if me as c_int != root { unsafe { store(&contrib(co, root as usize).parts[0], b, 0, n as usize, &t) } }
    }))
}}
coll! { MPI_Scatter MPI_Iscatter (sb: *const c_void, sn: c_int, st: MPI_Datatype, rb: *mut c_void, rn: c_int, rt: MPI_Datatype, root: c_int, c: MPI_Comm) {
    let me = crank(c);
    let n = csize(c);
    let parts = if me as c_int == root { let t = ty_of(st); (0..n).map(|r| part((sb as *const u8).offset(r as isize * sn as isize * t.extent()) as _, sn, &t)).collect() } else { vec![] };
    let rt = ty_of(rt);
    start(c, "scatter", root, 0, parts, Box::new(move |co| unsafe { store(&contrib(co, root as usize).parts[me], rb, 0, rn as usize, &rt) }))
}}
coll! { MPI_Scatterv MPI_Iscatterv (sb: *const c_void, sn: *const c_int, disp: *const c_int, st: MPI_Datatype, rb: *mut c_void, rn: c_int, rt: MPI_Datatype, root: c_int, c: MPI_Comm) {
    let me = crank(c);
    let n = csize(c);
    let parts = if me as c_int == root { let t = ty_of(st); (0..n).map(|r| part((sb as *const u8).offset(*disp.add(r) as isize * t.extent()) as _, *sn.add(r), &t)).collect() } else { vec![] };
    let rt = ty_of(rt);
    start(c, "scatter", root, 0, parts, Box::new(move |co| unsafe { store(&contrib(co, root as usize).parts[me], rb, 0, rn as usize, &rt) }))
}}
coll! { MPI_Alltoall MPI_Ialltoall (sb: *const c_void, sn: c_int, st: MPI_Datatype, rb: *mut c_void, rn: c_int, rt: MPI_Datatype, c: MPI_Comm) {
    let me = crank(c);
    let n = csize(c);
    let t = ty_of(st);
    let parts = (0..n).map(|r| part((sb as *const u8).offset(r as isize * sn as isize * t.extent()) as _, sn, &t)).collect();
    let rt = ty_of(rt);
    start(c, "alltoall", 0, 0, parts, Box::new(move |co| for r in 0..n { unsafe { store(&contrib(co, r).parts[me], rb, r as isize * rn as isize * rt.extent(), rn as usize, &rt) } }))
}}
coll! { MPI_Alltoallv MPI_Ialltoallv (sb: *const c_void, sn: *const c_int, sd: *const c_int, st: MPI_Datatype, rb: *mut c_void, rn: *const c_int, rd: *const c_int, rt: MPI_Datatype, c: MPI_Comm) {
    let me = crank(c);
    let n = csize(c);
    let t = ty_of(st);
    let parts = (0..n).map(|r| part((sb as *const u8).offset(*sd.add(r) as isize * t.extent()) as _, *sn.add(r), &t)).collect();
    let rt = ty_of(rt);
    let counts = arr(rn, n as c_int).to_vec();
    let d = arr(rd, n as c_int).to_vec();
    start(c, "alltoallv", 0, 0, parts, Box::new(move |co| for r in 0..n { unsafe { store(&contrib(co, r).parts[me], rb, d[r] as isize * rt.extent(), counts[r] as usize, &rt) } }))
}}

#[repr(C)]
struct UserOp {
    f: MPI_User_function,
}
pub unsafe fn MPI_Op_create(f: MPI_User_function, _commute: c_int, op: *mut MPI_Op) -> c_int {
    *op = MPI_Op(Box::into_raw(Box::new(UserOp { f })) as _);
    OK
}
pub unsafe fn MPI_Op_free(op: *mut MPI_Op) -> c_int {
    *op = MPI_Op(p(0));
    OK
}
pub unsafe fn MPI_Op_commutative(_: MPI_Op, f: *mut c_int) -> c_int {
    *f = 1;
    OK
}
macro_rules! arith {
    ($ty:ty, $op:expr, $a:expr, $b:expr, int) => {{
        let (a, b) = (<$ty>::from_ne_bytes($a.try_into().unwrap()), <$ty>::from_ne_bytes($b.try_into().unwrap()));
        let r: $ty = match $op {
            1 => if a > b { a } else { b },
            2 => if a < b { a } else { b },
            3 => a.wrapping_add(b),
            4 => a.wrapping_mul(b),
            5 => (a != 0 && b != 0) as u8 as $ty,
            6 => a & b,
            7 => (a != 0 || b != 0) as u8 as $ty,
            8 => a | b,
            9 => ((a != 0) != (b != 0)) as u8 as $ty,
            10 => a ^ b,
            _ => unreachable!(),
        };
        r.to_ne_bytes().to_vec()
    }};
    ($ty:ty, $op:expr, $a:expr, $b:expr, float) => {{
        let (a, b) = (<$ty>::from_ne_bytes($a.try_into().unwrap()), <$ty>::from_ne_bytes($b.try_into().unwrap()));
        let r: $ty = match $op {
            1 => if a > b { a } else { b },
            2 => if a < b { a } else { b },
            3 => a + b,
            4 => a * b,
            _ => panic!("MPI: invalid operation for a floating point type"),
        };
        r.to_ne_bytes().to_vec()
    }};
}
fn combine(op: usize, k: Basic, a: &[u8], b: &[u8]) -> Vec<u8> {
    match k {
        Basic::F32 => arith!(f32, op, a, b, float),
        Basic::F64 => arith!(f64, op, a, b, float),
        Basic::I8 => arith!(i8, op, a, b, int),
        Basic::I16 => arith!(i16, op, a, b, int),
        Basic::I32 => arith!(i32, op, a, b, int),
        Basic::I64 => arith!(i64, op, a, b, int),
        Basic::U8 | Basic::Packed | Basic::Bool => arith!(u8, op, a, b, int),
        Basic::U16 => arith!(u16, op, a, b, int),
        Basic::U32 => arith!(u32, op, a, b, int),
        Basic::U64 => arith!(u64, op, a, b, int),
        _ => panic!("complex reductions are not simulated"),
    }
}
unsafe fn reduce(op: usize, acc: &mut Payload, next: &Payload) {
    if op > 4096 {
        let f = (*(op as *const UserOp)).f.unwrap();
        let t = &acc.ty;
        let ext = t.extent() as usize * acc.count;
        let mut a = vec![0u8; ext + 16];
        let mut b = vec![0u8; ext + 16];
        t.unpack(&next.bytes, b.as_mut_ptr(), acc.count);
        t.unpack(&acc.bytes, a.as_mut_ptr(), acc.count);
        let mut n = acc.count as c_int;
        let mut d = new_ty((**t).clone());
        f(a.as_mut_ptr() as _, b.as_mut_ptr() as _, &mut n, &mut d);
        acc.bytes = t.pack(b.as_ptr(), acc.count);
        return;
    }
    let mut out = Vec::with_capacity(acc.bytes.len());
    let mut pos = 0;
    'o: for _ in 0..acc.count {
        for (_, k, n) in &acc.ty.map {
            for _ in 0..*n {
                let s = k.size();
                if pos + s > next.bytes.len() {
                    break 'o;
                }
                out.extend(combine(op, *k, &acc.bytes[pos..pos + s], &next.bytes[pos..pos + s]));
                pos += s;
            }
        }
    }
    acc.bytes = out;
}
unsafe fn fold(co: &Coll, op: usize, upto: usize) -> Payload {
    let mut a = contrib(co, 0).parts[0].clone();
    for r in 1..upto {
        reduce(op, &mut a, &contrib(co, r).parts[0]);
    }
    a
}
coll! { MPI_Allreduce MPI_Iallreduce (sb: *const c_void, rb: *mut c_void, n: c_int, t: MPI_Datatype, op: MPI_Op, c: MPI_Comm) {
    let t = ty_of(t);
    let size = csize(c);
    let o = op.0 as usize;
    let pl = part(sb, n, &t);
    start(c, "allreduce", 0, if o > 4096 { 4096 } else { o }, vec![pl], Box::new(move |co| unsafe { store(&fold(co, o, size), rb, 0, n as usize, &t) }))
}}
coll! { MPI_Reduce MPI_Ireduce (sb: *const c_void, rb: *mut c_void, n: c_int, t: MPI_Datatype, op: MPI_Op, root: c_int, c: MPI_Comm) {
    let t = ty_of(t);
    let size = csize(c);
    let me = crank(c);
    let o = op.0 as usize;
    let pl = part(sb, n, &t);
    start(c, "reduce", root, if o > 4096 { 4096 } else { o }, vec![pl], Box::new(move |co| if me as c_int == root { unsafe { store(&fold(co, o, size), rb, 0, n as usize, &t) } }))
}}
coll! { MPI_Scan MPI_Iscan (sb: *const c_void, rb: *mut c_void, n: c_int, t: MPI_Datatype, op: MPI_Op, c: MPI_Comm) {
    let t = ty_of(t);
    let me = crank(c);
    let o = op.0 as usize;
    let pl = part(sb, n, &t);
    start(c, "scan", 0, if o > 4096 { 4096 } else { o }, vec![pl], Box::new(move |co| unsafe { store(&fold(co, o, me + 1), rb, 0, n as usize, &t) }))
}}
coll! { MPI_Exscan MPI_Iexscan (sb: *const c_void, rb: *mut c_void, n: c_int, t: MPI_Datatype, op: MPI_Op, c: MPI_Comm) {
    let t = ty_of(t);
    let me = crank(c);
    let o = op.0 as usize;
    let pl = part(sb, n, &t);
    start(c, "exscan", 0, if o > 4096 { 4096 } else { o }, vec![pl], Box::new(move |co| if me > 0 { unsafe { store(&fold(co, o, me), rb, 0, n as usize, &t) } }))
}}
pub unsafe fn MPI_Reduce_local(a: *const c_void, b: *mut c_void, n: c_int, t: MPI_Datatype, op: MPI_Op) -> c_int {
    let t = ty_of(t);
    let mut x = part(a, n, &t);
    let y = part(b, n, &t);
    reduce(op.0 as usize, &mut x, &y);
    t.unpack(&x.bytes, b as _, n as usize);
    OK
}
