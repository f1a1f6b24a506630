//! Stand-in for the serial hdf5 API subsweep uses. A file is a log of
//! records, written through std::fs (and hence through the simulated disk),
//! so that errors, full disks, short writes and crashes in the middle of a
//! write reach it. Like HDF5 >= 1.10, opening a file for writing locks it.
use std::collections::BTreeMap;
use std::fmt;
use std::fs;
use std::io::Write;
use std::ops::Range;
use std::path::Path;
use std::path::PathBuf;
use std::sync::Arc;
use std::sync::Mutex;

pub use hdf5_derive::H5Type;
use ndarray::Array1;
use ndarray::Array2;
use ndarray::ArrayView1;
use ndarray::SliceInfoElem;

pub mod types {
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum TypeDescriptor {
        Float(usize),
        Integer(usize),
        Unsigned(usize),
        Boolean,
        FixedArray(Box<TypeDescriptor>, usize),
        Compound(Vec<TypeDescriptor>, usize),
    }
    impl TypeDescriptor {
        pub fn size(&self) -> usize {
            match self {
                Self::Float(n) | Self::Integer(n) | Self::Unsigned(n) => *n,
                Self::Boolean => 1,
                Self::FixedArray(t, n) => t.size() * n,
                Self::Compound(_, n) => *n,
            }
        }
        pub(crate) fn encode(&self, out: &mut Vec<u8>) {
            match self {
                Self::Float(n) => out.extend([0, *n as u8]),
                Self::Integer(n) => out.extend([1, *n as u8]),
                Self::Unsigned(n) => out.extend([2, *n as u8]),
                Self::Boolean => out.push(3),
                Self::FixedArray(t, n) => {
                    out.extend([4, *n as u8]);
                    t.encode(out);
                }
                Self::Compound(ts, n) => {
                    out.extend([5, *n as u8, ts.len() as u8]);
                    for t in ts {
                        t.encode(out);
                    }
                }
            }
        }
        pub(crate) fn decode(b: &mut &[u8]) -> Option<Self> {
            let mut next = || -> Option<u8> {
                let (x, rest) = b.split_first()?;
                *b = rest;
                Some(*x)
            };
            Some(match next()? {
                0 => Self::Float(next()? as usize),
                1 => Self::Integer(next()? as usize),
                2 => Self::Unsigned(next()? as usize),
                3 => Self::Boolean,
                4 => {
                    let n = next()? as usize;
                    Self::FixedArray(Box::new(Self::decode(b)?), n)
                }
                5 => {
                    let n = next()? as usize;
                    let k = next()?;
                    let mut v = vec![];
                    for _ in 0..k {
                        v.push(Self::decode(b)?);
                    }
                    Self::Compound(v, n)
                }
                _ => return None,
            })
        }
    }
}
use types::TypeDescriptor;

/// # Safety
/// The descriptor describes the memory layout.
pub unsafe trait H5Type: 'static {
    fn type_descriptor() -> TypeDescriptor;
}
macro_rules! prim {
    ($($t:ty => $d:expr),*) => { $(unsafe impl H5Type for $t {
        fn type_descriptor() -> TypeDescriptor { $d }
    })* };
}
use TypeDescriptor::*;
prim!(f64 => Float(8), f32 => Float(4), i8 => Integer(1), i16 => Integer(2), i32 => Integer(4),
      i64 => Integer(8), isize => Integer(8), u8 => Unsigned(1), u16 => Unsigned(2),
      u32 => Unsigned(4), u64 => Unsigned(8), usize => Unsigned(8), bool => Boolean);
unsafe impl<T: H5Type, const N: usize> H5Type for [T; N] {
    fn type_descriptor() -> TypeDescriptor {
        FixedArray(Box::new(T::type_descriptor()), N)
    }
}

#[derive(Clone)]
pub struct Error(pub String);
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl From<std::io::Error> for Error {
    fn from(e: std::io::Error) -> Self {
        Error(e.to_string())
    }
}
pub type Result<T, E = Error> = std::result::Result<T, E>;
fn err<T>(s: impl Into<String>) -> Result<T> {
    Err(Error(s.into()))
}

/// Per-job table of open files: number of readers, and whether there is a writer.
static LOCKS: Mutex<(u64, BTreeMap<PathBuf, (usize, bool)>)> = Mutex::new((0, BTreeMap::new()));

fn lock(path: &Path, write: bool) -> Result<()> {
    let mut l = LOCKS.lock().unwrap_or_else(|e| e.into_inner());
    let job = simcore::job_id();
    if l.0 != job {
        *l = (job, BTreeMap::new());
    }
    let e = l.1.entry(path.to_owned()).or_insert((0, false));
    if e.1 || (write && e.0 > 0) {
        return err(format!("unable to lock file {path:?}: Resource temporarily unavailable"));
    }
    if write {
        e.1 = true;
    } else {
        e.0 += 1;
    }
    Ok(())
}
fn unlock(path: &Path, write: bool) {
    let mut l = LOCKS.lock().unwrap_or_else(|e| e.into_inner());
    if l.0 != simcore::job_id() {
        return;
    }
    if let Some(e) = l.1.get_mut(path) {
        if write {
            e.1 = false;
        } else {
            e.0 = e.0.saturating_sub(1);
        }
    }
}

#[derive(Clone, Debug)]
struct Value {
    desc: TypeDescriptor,
    data: Vec<u8>,
}
#[derive(Clone, Debug)]
struct Dset {
    shape: Vec<usize>,
    value: Value,
    attrs: BTreeMap<String, Value>,
}

const MAGIC: &[u8] = b"SIMHDF5\n";

struct Inner {
    path: PathBuf,
    file: Option<fs::File>,
    write: bool,
    attrs: BTreeMap<String, Value>,
    dsets: BTreeMap<String, Dset>,
}
impl Drop for Inner {
    fn drop(&mut self) {
        unlock(&self.path, self.write);
    }
}
fn put_str(out: &mut Vec<u8>, s: &str) {
    out.extend((s.len() as u32).to_le_bytes());
    out.extend(s.as_bytes());
}
fn put_u64(out: &mut Vec<u8>, n: usize) {
    out.extend((n as u64).to_le_bytes());
}
fn get_n<'a>(b: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
    if b.len() < n {
        return None;
    }
    let (x, y) = b.split_at(n);
    *b = y;
    Some(x)
}
fn get_u64(b: &mut &[u8]) -> Option<usize> {
    Some(u64::from_le_bytes(get_n(b, 8)?.try_into().ok()?) as usize)
}
fn get_str(b: &mut &[u8]) -> Option<String> {
    let n = u32::from_le_bytes(get_n(b, 4)?.try_into().ok()?) as usize;
    String::from_utf8(get_n(b, n)?.to_vec()).ok()
}

impl Inner {
    fn append(&mut self, rec: Vec<u8>) -> Result<()> {
        if !self.write {
            return err("file is read-only");
        }
        let mut out = vec![];
        put_u64(&mut out, rec.len());
        out.extend(&rec);
        self.file.as_mut().unwrap().write_all(&out)?;
        self.apply(&rec).ok_or(Error("invalid operation".into()))
    }
    /// Records: 0 new dataset, 1 data, 2 file attr, 3 dataset attr
    fn apply(&mut self, mut b: &[u8]) -> Option<()> {
        let b = &mut b;
        match get_n(b, 1)?[0] {
            0 => {
                let name = get_str(b)?;
                let rank = get_u64(b)?;
                let mut shape = vec![];
                for _ in 0..rank {
                    shape.push(get_u64(b)?);
                }
                let desc = TypeDescriptor::decode(b)?;
                let n = shape.iter().product::<usize>() * desc.size();
                self.dsets.insert(
                    name,
                    Dset {
                        shape,
                        value: Value {
                            desc,
                            data: vec![0; n],
                        },
                        attrs: BTreeMap::new(),
                    },
                );
            }
            1 => {
                let name = get_str(b)?;
                let start = get_u64(b)?;
                let d = self.dsets.get_mut(&name)?;
                let n = b.len();
                d.value.data.get_mut(start..start + n)?.copy_from_slice(b);
            }
            2 => {
                let name = get_str(b)?;
                let desc = TypeDescriptor::decode(b)?;
                let data = b.to_vec();
                self.attrs.insert(name, Value { desc, data });
            }
            3 => {
                let dset = get_str(b)?;
                let name = get_str(b)?;
                let desc = TypeDescriptor::decode(b)?;
                let data = b.to_vec();
                self.dsets.get_mut(&dset)?.attrs.insert(name, Value { desc, data });
            }
            _ => return None,
        }
        Some(())
    }
}

fn as_bytes<T: H5Type>(t: &[T]) -> &[u8] {
    unsafe { std::slice::from_raw_parts(t.as_ptr() as *const u8, std::mem::size_of_val(t)) }
}

fn leaf_to_f64(d: &TypeDescriptor, b: &[u8]) -> Option<f64> {
    Some(match d {
        Float(8) => f64::from_le_bytes(b.try_into().ok()?),
        Float(4) => f32::from_le_bytes(b.try_into().ok()?) as f64,
        Integer(4) => i32::from_le_bytes(b.try_into().ok()?) as f64,
        Integer(8) => i64::from_le_bytes(b.try_into().ok()?) as f64,
        Unsigned(4) => u32::from_le_bytes(b.try_into().ok()?) as f64,
        Unsigned(8) => u64::from_le_bytes(b.try_into().ok()?) as f64,
        _ => return None,
    })
}
fn leaf_from_f64(d: &TypeDescriptor, x: f64) -> Option<Vec<u8>> {
    Some(match d {
        Float(8) => x.to_le_bytes().to_vec(),
        Float(4) => (x as f32).to_le_bytes().to_vec(),
        Integer(4) => (x as i32).to_le_bytes().to_vec(),
        Integer(8) => (x as i64).to_le_bytes().to_vec(),
        Unsigned(4) => (x as u32).to_le_bytes().to_vec(),
        Unsigned(8) => (x as u64).to_le_bytes().to_vec(),
        _ => return None,
    })
}

fn from_bytes<T: H5Type>(desc: &TypeDescriptor, data: &[u8]) -> Result<Vec<T>> {
    let want = T::type_descriptor();
    assert_eq!(want.size(), std::mem::size_of::<T>());
    let conv;
    let bytes = if want == *desc {
        data
    } else {
        let mut out = vec![];
        for chunk in data.chunks(desc.size()) {
            let b = leaf_to_f64(desc, chunk)
                .and_then(|x| leaf_from_f64(&want, x))
                .ok_or_else(|| Error(format!("no conversion from {desc:?} to {want:?}")))?;
            out.extend(b);
        }
        conv = out;
        &conv
    };
    let n = bytes.len() / want.size();
    let mut v = Vec::<T>::with_capacity(n);
    unsafe {
        std::ptr::copy_nonoverlapping(bytes.as_ptr(), v.as_mut_ptr() as *mut u8, bytes.len());
        v.set_len(n);
    }
    Ok(v)
}

type Shared = Arc<Mutex<Inner>>;

pub struct File {
    inner: Shared,
}

impl fmt::Debug for File {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "<HDF5 file: {:?}>", self.filename())
    }
}
impl File {
    fn open_as(path: &Path, write: bool) -> Result<Self> {
        lock(path, write)?;
        let res = Self::load(path, write);
        if res.is_err() {
            unlock(path, write);
        }
        res
    }
    fn load(path: &Path, write: bool) -> Result<Self> {
        let contents = fs::read(path)?;
        let file = if write {
            Some(fs::OpenOptions::new().append(true).open(path)?)
        } else {
            None
        };
        let mut inner = Inner {
            path: path.to_owned(),
            file,
            write,
            attrs: BTreeMap::new(),
            dsets: BTreeMap::new(),
        };
        let fail = |inner: Inner| {
            // load() does not own the lock yet
            let mut inner = std::mem::ManuallyDrop::new(inner);
            unsafe {
                std::ptr::drop_in_place(&mut inner.file);
            }
            err(format!("unable to open file {path:?}: truncated or corrupt file"))
        };
        if !contents.starts_with(MAGIC) {
            return fail(inner);
        }
        let mut b = &contents[MAGIC.len()..];
        while !b.is_empty() {
            let ok = get_u64(&mut b)
                .and_then(|n| get_n(&mut b, n))
                .and_then(|rec| inner.apply(rec));
            if ok.is_none() {
                return fail(inner);
            }
        }
        Ok(File {
            inner: Arc::new(Mutex::new(inner)),
        })
    }
    pub fn open<P: AsRef<Path>>(p: P) -> Result<Self> {
        Self::open_as(p.as_ref(), false)
    }
    pub fn open_rw<P: AsRef<Path>>(p: P) -> Result<Self> {
        Self::open_as(p.as_ref(), true)
    }
    pub fn create<P: AsRef<Path>>(p: P) -> Result<Self> {
        let path = p.as_ref();
        lock(path, true)?;
        let make = || -> Result<fs::File> {
            fs::File::create(path)?.write_all(MAGIC)?;
            Ok(fs::OpenOptions::new().append(true).open(path)?)
        };
        match make() {
            Ok(file) => Ok(File {
                inner: Arc::new(Mutex::new(Inner {
                    path: path.to_owned(),
                    file: Some(file),
                    write: true,
                    attrs: BTreeMap::new(),
                    dsets: BTreeMap::new(),
                })),
            }),
            Err(e) => {
                unlock(path, true);
                Err(e)
            }
        }
    }
    pub fn filename(&self) -> String {
        self.inner.lock().unwrap().path.to_string_lossy().into()
    }
    pub fn dataset(&self, name: &str) -> Result<Dataset> {
        if !self.inner.lock().unwrap().dsets.contains_key(name) {
            return err(format!("unable to open dataset: object '{name}' doesn't exist"));
        }
        Ok(Dataset {
            inner: self.inner.clone(),
            name: name.into(),
        })
    }
    pub fn link_exists(&self, name: &str) -> bool {
        self.inner.lock().unwrap().dsets.contains_key(name)
    }
    pub fn member_names(&self) -> Result<Vec<String>> {
        Ok(self.inner.lock().unwrap().dsets.keys().cloned().collect())
    }
    pub fn attr_names(&self) -> Result<Vec<String>> {
        Ok(self.inner.lock().unwrap().attrs.keys().cloned().collect())
    }
    pub fn new_dataset<T: H5Type>(&self) -> DatasetBuilder {
        DatasetBuilder {
            inner: self.inner.clone(),
            desc: T::type_descriptor(),
            shape: vec![],
        }
    }
    pub fn new_attr<T: H5Type>(&self) -> AttributeBuilder {
        AttributeBuilder {
            inner: self.inner.clone(),
            dset: None,
            desc: T::type_descriptor(),
        }
    }
    pub fn attr(&self, name: &str) -> Result<Attribute> {
        let i = self.inner.lock().unwrap();
        match i.attrs.get(name) {
            None => err(format!("can't open attribute '{name}'")),
            Some(v) => Ok(Attribute {
                inner: self.inner.clone(),
                dset: None,
                name: name.into(),
                desc: v.desc.clone(),
            }),
        }
    }
    pub fn close(self) -> Result<()> {
        Ok(())
    }
}

pub trait ToShape {
    fn to_shape(self) -> Vec<usize>;
}
impl ToShape for () {
    fn to_shape(self) -> Vec<usize> {
        vec![]
    }
}
impl<const N: usize> ToShape for &[usize; N] {
    fn to_shape(self) -> Vec<usize> {
        self.to_vec()
    }
}
impl<const N: usize> ToShape for [usize; N] {
    fn to_shape(self) -> Vec<usize> {
        self.to_vec()
    }
}
impl ToShape for usize {
    fn to_shape(self) -> Vec<usize> {
        vec![self]
    }
}

pub struct DatasetBuilder {
    inner: Shared,
    desc: TypeDescriptor,
    shape: Vec<usize>,
}
impl DatasetBuilder {
    pub fn shape<S: ToShape>(mut self, s: S) -> Self {
        self.shape = s.to_shape();
        self
    }
    pub fn create<'a, S: Into<&'a str>>(self, name: S) -> Result<Dataset> {
        let name: &str = name.into();
        let mut i = self.inner.lock().unwrap();
        if i.dsets.contains_key(name) {
            return err(format!("unable to create dataset: name '{name}' already exists"));
        }
        let mut r = vec![0];
        put_str(&mut r, name);
        put_u64(&mut r, self.shape.len());
        for s in &self.shape {
            put_u64(&mut r, *s);
        }
        self.desc.encode(&mut r);
        i.append(r)?;
        drop(i);
        Ok(Dataset {
            inner: self.inner,
            name: name.into(),
        })
    }
}

pub struct AttributeBuilder {
    inner: Shared,
    dset: Option<String>,
    desc: TypeDescriptor,
}
impl AttributeBuilder {
    pub fn shape<S: ToShape>(self, _: S) -> Self {
        self
    }
    pub fn create<'a, S: Into<&'a str>>(self, name: S) -> Result<Attribute> {
        let name: &str = name.into();
        let i = self.inner.lock().unwrap();
        let exists = match &self.dset {
            None => i.attrs.contains_key(name),
            Some(d) => i.dsets[d].attrs.contains_key(name),
        };
        if exists {
            return err(format!("unable to create attribute: '{name}' already exists"));
        }
        drop(i);
        Ok(Attribute {
            inner: self.inner,
            dset: self.dset,
            name: name.into(),
            desc: self.desc,
        })
    }
}

pub struct Attribute {
    inner: Shared,
    dset: Option<String>,
    name: String,
    desc: TypeDescriptor,
}
impl Attribute {
    pub fn write_scalar<T: H5Type>(&self, t: &T) -> Result<()> {
        if T::type_descriptor() != self.desc {
            return err("type mismatch in attribute");
        }
        let mut r = vec![];
        match &self.dset {
            None => r.push(2),
            Some(d) => {
                r.push(3);
                put_str(&mut r, d);
            }
        }
        put_str(&mut r, &self.name);
        self.desc.encode(&mut r);
        r.extend(as_bytes(std::slice::from_ref(t)));
        self.inner.lock().unwrap().append(r)
    }
    pub fn read_scalar<T: H5Type>(&self) -> Result<T> {
        let i = self.inner.lock().unwrap();
        let v = match &self.dset {
            None => i.attrs.get(&self.name),
            Some(d) => i.dsets[d].attrs.get(&self.name),
        };
        let Some(v) = v else {
            return err("attribute has no value");
        };
        Ok(from_bytes::<T>(&v.desc, &v.data)?.remove(0))
    }
}

#[derive(Clone, Debug)]
pub struct Selection(Vec<(isize, Option<isize>)>);
impl Selection {
    pub fn try_new<T: TryInto<Selection>>(t: T) -> Result<Self, T::Error> {
        t.try_into()
    }
    fn rows(&self, len: usize) -> Result<Range<usize>> {
        let (s, e) = self.0[0];
        let e = e.unwrap_or(len as isize);
        if s < 0 || e < s || e as usize > len {
            return err(format!("selection {s}..{e} out of bounds for length {len}"));
        }
        Ok(s as usize..e as usize)
    }
}
impl From<Range<usize>> for Selection {
    fn from(r: Range<usize>) -> Self {
        Selection(vec![(r.start as isize, Some(r.end as isize))])
    }
}
impl<T, A, B> TryFrom<ndarray::SliceInfo<T, A, B>> for Selection
where
    T: AsRef<[SliceInfoElem]>,
    A: ndarray::Dimension,
    B: ndarray::Dimension,
{
    type Error = Error;
    fn try_from(s: ndarray::SliceInfo<T, A, B>) -> Result<Self> {
        let e: &[SliceInfoElem] = AsRef::<[SliceInfoElem]>::as_ref(&s);
        Ok(Selection(
            e.iter()
                .map(|e| match e {
                    SliceInfoElem::Slice { start, end, .. } => (*start, *end),
                    SliceInfoElem::Index(i) => (*i, Some(*i + 1)),
                    _ => (0, None),
                })
                .collect(),
        ))
    }
}

#[derive(Clone)]
pub struct Dataset {
    inner: Shared,
    name: String,
}
impl Dataset {
    pub fn name(&self) -> String {
        self.name.clone()
    }
    pub fn shape(&self) -> Vec<usize> {
        self.inner.lock().unwrap().dsets[&self.name].shape.clone()
    }
    pub fn size(&self) -> usize {
        self.shape().iter().product()
    }
    pub fn new_attr<T: H5Type>(&self) -> AttributeBuilder {
        AttributeBuilder {
            inner: self.inner.clone(),
            dset: Some(self.name.clone()),
            desc: T::type_descriptor(),
        }
    }
    pub fn attr(&self, name: &str) -> Result<Attribute> {
        let i = self.inner.lock().unwrap();
        match i.dsets[&self.name].attrs.get(name) {
            None => err(format!("can't open attribute '{name}'")),
            Some(v) => Ok(Attribute {
                inner: self.inner.clone(),
                dset: Some(self.name.clone()),
                name: name.into(),
                desc: v.desc.clone(),
            }),
        }
    }
    fn read_rows<T: H5Type>(&self, sel: Selection) -> Result<(Vec<T>, usize)> {
        let i = self.inner.lock().unwrap();
        let d = &i.dsets[&self.name];
        let width: usize = d.shape[1..].iter().product();
        let r = sel.rows(d.shape[0])?;
        let sz = d.value.desc.size() * width;
        Ok((
            from_bytes(&d.value.desc, &d.value.data[r.start * sz..r.end * sz])?,
            width,
        ))
    }
    pub fn read_slice_1d<T: H5Type, S>(&self, sel: S) -> Result<Array1<T>>
    where
        S: TryInto<Selection>,
        S::Error: fmt::Debug,
    {
        if self.shape().len() != 1 {
            return err("ndim mismatch: expected 1");
        }
        let (v, _) = self.read_rows::<T>(sel.try_into().map_err(|e| Error(format!("{e:?}")))?)?;
        Ok(Array1::from_vec(v))
    }
    pub fn read_slice_2d<T: H5Type, S>(&self, sel: S) -> Result<Array2<T>>
    where
        S: TryInto<Selection>,
        S::Error: fmt::Debug,
    {
        if self.shape().len() != 2 {
            return err("ndim mismatch: expected 2");
        }
        let (v, w) = self.read_rows::<T>(sel.try_into().map_err(|e| Error(format!("{e:?}")))?)?;
        let n = v.len() / w.max(1);
        Ok(Array2::from_shape_vec((n, w), v).unwrap())
    }
    pub fn ndim(&self) -> usize {
        self.shape().len()
    }
    pub fn read_1d<T: H5Type>(&self) -> Result<Array1<T>> {
        let n = self.shape()[0];
        self.read_slice_1d(0..n)
    }
    pub fn read_2d<T: H5Type>(&self) -> Result<Array2<T>> {
        let n = self.shape()[0];
        self.read_slice_2d(0..n)
    }
    pub fn read_raw<T: H5Type>(&self) -> Result<Vec<T>> {
        let i = self.inner.lock().unwrap();
        let d = &i.dsets[&self.name];
        from_bytes(&d.value.desc, &d.value.data)
    }
    /// Write the whole dataset.
    pub fn write_raw<T: H5Type>(&self, data: &[T]) -> Result<()> {
        let mut i = self.inner.lock().unwrap();
        let mut r = vec![1];
        put_str(&mut r, &self.name);
        put_u64(&mut r, 0);
        r.extend(as_bytes(data));
        i.append(r)
    }
    pub fn write_slice<'a, T: H5Type, A, S>(&self, arr: A, sel: S) -> Result<()>
    where
        A: Into<ArrayView1<'a, T>>,
        S: TryInto<Selection>,
        S::Error: fmt::Debug,
    {
        let sel: Selection = sel.try_into().map_err(|e| Error(format!("{e:?}")))?;
        let view: ArrayView1<T> = arr.into();
        let data = view.as_slice().unwrap();
        let mut i = self.inner.lock().unwrap();
        let d = &i.dsets[&self.name];
        if d.value.desc != T::type_descriptor() {
            return err("type mismatch in write");
        }
        let rows = sel.rows(d.shape[0])?;
        if rows.len() != data.len() {
            return err(format!(
                "shape mismatch when writing: memory = [{}], destination = [{}]",
                data.len(),
                rows.len()
            ));
        }
        let mut r = vec![1];
        put_str(&mut r, &self.name);
        put_u64(&mut r, rows.start * d.value.desc.size());
        r.extend(as_bytes(data));
        i.append(r)
    }
}
