//! A stand-in for the ONNX Runtime C library (not installed here): it parses the ONNX
//! protobuf it is given and evaluates the small MLP in plain Rust, so that the default
//! (model) scoring policy runs for real, deterministically and single threaded.
use ort_sys::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_void, CStr, CString};
use std::ptr;

struct Tensor {
    dims: Vec<i64>,
    data: Vec<f32>,
}

struct Node {
    op: String,
    ins: Vec<String>,
    outs: Vec<String>,
    trans_b: bool,
}

struct Model {
    nodes: Vec<Node>,
    init: HashMap<String, Tensor>,
    input: CString,
    output: CString,
    in_cols: i64,
}

struct Value {
    t: Tensor,
}

struct Info {
    dims: Vec<i64>,
}

// ---- protobuf ----
struct Pb<'a>(&'a [u8]);
enum Field<'a> {
    Var(u64),
    Bytes(&'a [u8]),
    F32(u32),
    F64(u64),
}
impl<'a> Pb<'a> {
    fn varint(&mut self) -> u64 {
        let mut r = 0u64;
        let mut s = 0;
        loop {
            let b = self.0[0];
            self.0 = &self.0[1..];
            r |= ((b & 0x7f) as u64) << s;
            if b & 0x80 == 0 {
                return r;
            }
            s += 7;
        }
    }
    fn take(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn next(&mut self) -> Option<(u64, Field<'a>)> {
        if self.0.is_empty() {
            return None;
        }
        let k = self.varint();
        Some((
            k >> 3,
            match k & 7 {
                0 => Field::Var(self.varint()),
                1 => Field::F64(u64::from_le_bytes(self.take(8).try_into().unwrap())),
                2 => {
                    let n = self.varint() as usize;
                    Field::Bytes(self.take(n))
                }
                5 => Field::F32(u32::from_le_bytes(self.take(4).try_into().unwrap())),
                w => panic!("protobuf wire type {w}"),
            },
        ))
    }
}
fn st(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

fn parse_model(bytes: &[u8]) -> Model {
    let mut m = Model {
        nodes: vec![],
        init: HashMap::new(),
        input: CString::new("input").unwrap(),
        output: CString::new("output").unwrap(),
        in_cols: -1,
    };
    let mut pb = Pb(bytes);
    while let Some((f, v)) = pb.next() {
        if let (7, Field::Bytes(g)) = (f, v) {
            let mut g = Pb(g);
            while let Some((f, v)) = g.next() {
                match (f, v) {
                    (1, Field::Bytes(n)) => m.nodes.push(parse_node(n)),
                    (5, Field::Bytes(t)) => {
                        let (n, t) = parse_tensor(t);
                        m.init.insert(n, t);
                    }
                    (11, Field::Bytes(vi)) => {
                        let (n, d) = parse_value_info(vi);
                        m.input = CString::new(n).unwrap();
                        m.in_cols = d.get(1).copied().unwrap_or(-1);
                    }
                    (12, Field::Bytes(vi)) => {
                        let (n, _) = parse_value_info(vi);
                        m.output = CString::new(n).unwrap();
                    }
                    _ => {}
                }
            }
        }
    }
    m
}

fn parse_value_info(b: &[u8]) -> (String, Vec<i64>) {
    let mut name = String::new();
    let mut dims = vec![];
    let mut p = Pb(b);
    while let Some((f, v)) = p.next() {
        match (f, v) {
            (1, Field::Bytes(s)) => name = st(s),
            (2, Field::Bytes(ty)) => {
                let mut ty = Pb(ty);
                while let Some((f, v)) = ty.next() {
                    if let (1, Field::Bytes(tt)) = (f, v) {
                        let mut tt = Pb(tt);
                        while let Some((f, v)) = tt.next() {
                            if let (2, Field::Bytes(sh)) = (f, v) {
                                let mut sh = Pb(sh);
                                while let Some((_, v)) = sh.next() {
                                    if let Field::Bytes(d) = v {
                                        let mut d = Pb(d);
                                        let mut val = -1;
                                        while let Some((f, v)) = d.next() {
                                            if let (1, Field::Var(x)) = (f, v) {
                                                val = x as i64
                                            }
                                        }
                                        dims.push(val);
                                    }
                                }
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    (name, dims)
}

fn parse_node(b: &[u8]) -> Node {
    let mut n = Node { op: String::new(), ins: vec![], outs: vec![], trans_b: false };
    let mut p = Pb(b);
    while let Some((f, v)) = p.next() {
        match (f, v) {
            (1, Field::Bytes(s)) => n.ins.push(st(s)),
            (2, Field::Bytes(s)) => n.outs.push(st(s)),
            (4, Field::Bytes(s)) => n.op = st(s),
            (5, Field::Bytes(a)) => {
                let mut a = Pb(a);
                let mut name = String::new();
                let mut i = 0;
                let mut fl = 1.0f32;
                while let Some((f, v)) = a.next() {
                    match (f, v) {
                        (1, Field::Bytes(s)) => name = st(s),
                        (2, Field::F32(x)) => fl = f32::from_bits(x),
                        (3, Field::Var(x)) => i = x,
                        _ => {}
                    }
                }
                match name.as_str() {
                    "transB" => n.trans_b = i == 1,
                    "alpha" | "beta" => assert!(fl == 1.0),
                    other => panic!("onnx attribute {other}"),
                }
            }
            _ => {}
        }
    }
    n
}

fn parse_tensor(b: &[u8]) -> (String, Tensor) {
    let mut name = String::new();
    let mut t = Tensor { dims: vec![], data: vec![] };
    let mut p = Pb(b);
    while let Some((f, v)) = p.next() {
        match (f, v) {
            (1, Field::Var(d)) => t.dims.push(d as i64),
            (1, Field::Bytes(d)) => {
                let mut d = Pb(d);
                while !d.0.is_empty() {
                    let x = d.varint() as i64;
                    t.dims.push(x);
                }
            }
            (8, Field::Bytes(s)) => name = st(s),
            (9, Field::Bytes(raw)) => {
                t.data = raw
                    .chunks_exact(4)
                    .map(|c| f32::from_le_bytes(c.try_into().unwrap()))
                    .collect()
            }
            _ => {}
        }
    }
    (name, t)
}

fn run_model(m: &Model, input: &Tensor) -> Tensor {
    let rows = input.dims[0] as usize;
    let mut env: HashMap<&str, Tensor> = HashMap::new();
    env.insert(
        m.input.to_str().unwrap(),
        Tensor { dims: input.dims.clone(), data: input.data.clone() },
    );
    let mut last = "";
    for n in &m.nodes {
        let a = &env[n.ins[0].as_str()];
        let cols = a.data.len() / rows.max(1);
        let out = match n.op.as_str() {
            "Sub" | "Div" => {
                let b = &m.init[&n.ins[1]].data;
                let data = a
                    .data
                    .iter()
                    .enumerate()
                    .map(|(i, x)| {
                        let y = b[i % cols];
                        if n.op == "Sub" { x - y } else { x / y }
                    })
                    .collect();
                Tensor { dims: a.dims.clone(), data }
            }
            "Relu" => Tensor {
                dims: a.dims.clone(),
                data: a.data.iter().map(|x| x.max(0.0)).collect(),
            },
            "Sigmoid" => Tensor {
                dims: a.dims.clone(),
                data: a.data.iter().map(|x| 1.0 / (1.0 + (-x).exp())).collect(),
            },
            "Gemm" => {
                assert!(n.trans_b);
                let w = &m.init[&n.ins[1]];
                let bias = &m.init[&n.ins[2]].data;
                let oc = w.dims[0] as usize;
                let ic = w.dims[1] as usize;
                assert_eq!(ic, cols);
                let mut data = Vec::with_capacity(rows * oc);
                for r in 0..rows {
                    let x = &a.data[r * ic..(r + 1) * ic];
                    for o in 0..oc {
                        let wr = &w.data[o * ic..(o + 1) * ic];
                        let mut s = 0f32;
                        for k in 0..ic {
                            s += x[k] * wr[k];
                        }
                        data.push(s + bias[o]);
                    }
                }
                Tensor { dims: vec![rows as i64, oc as i64], data }
            }
            op => panic!("onnx op {op}"),
        };
        last = n.outs[0].as_str();
        env.insert(last, out);
    }
    env.remove(last).unwrap()
}

// ---- the C API ----
extern "C" fn unimplemented_slot() {
    eprintln!("ort stub: unimplemented API function called");
    unsafe { libc::_exit(98) }
}
extern "C" fn release_noop(_: *mut c_void) {}
extern "C" fn ok1(_: *mut c_void) -> *mut c_void {
    ptr::null_mut()
}
extern "C" fn ok2(_: *mut c_void, _: *mut c_void) -> *mut c_void {
    ptr::null_mut()
}
extern "C" fn ok3(_: *mut c_void, _: *mut c_void, _: *mut c_void) -> *mut c_void {
    ptr::null_mut()
}
extern "C" fn create_env_like(_: usize, _: usize, out: *mut *mut c_void) -> *mut c_void {
    unsafe { *out = 16 as *mut c_void };
    ptr::null_mut()
}
extern "C" fn create1(out: *mut *mut c_void) -> *mut c_void {
    unsafe { *out = 16 as *mut c_void };
    ptr::null_mut()
}
extern "C" fn create_env5(_: usize, _: usize, _: usize, _: usize, out: *mut *mut c_void) -> *mut c_void {
    unsafe { *out = 16 as *mut c_void };
    ptr::null_mut()
}
extern "C" fn create_mem_info(_: usize, _: usize, _: usize, _: usize, out: *mut *mut c_void) -> *mut c_void {
    unsafe { *out = 16 as *mut c_void };
    ptr::null_mut()
}
extern "C" fn create_session(
    _env: usize,
    data: *const c_void,
    len: usize,
    _opts: usize,
    out: *mut *mut c_void,
) -> *mut c_void {
    let bytes = unsafe { std::slice::from_raw_parts(data as *const u8, len) };
    let m = Box::new(parse_model(bytes));
    unsafe { *out = Box::into_raw(m) as *mut c_void };
    ptr::null_mut()
}
extern "C" fn count_one(_: *const c_void, out: *mut usize) -> *mut c_void {
    unsafe { *out = 1 };
    ptr::null_mut()
}
unsafe fn dup(s: &CStr) -> *mut c_char {
    libc::strdup(s.as_ptr())
}
extern "C" fn input_name(s: *const c_void, _: usize, _: *mut c_void, out: *mut *mut c_char) -> *mut c_void {
    unsafe { *out = dup(&(*(s as *const Model)).input) };
    ptr::null_mut()
}
extern "C" fn output_name(s: *const c_void, _: usize, _: *mut c_void, out: *mut *mut c_char) -> *mut c_void {
    unsafe { *out = dup(&(*(s as *const Model)).output) };
    ptr::null_mut()
}
extern "C" fn input_type(s: *const c_void, _: usize, out: *mut *mut c_void) -> *mut c_void {
    let cols = unsafe { (*(s as *const Model)).in_cols };
    unsafe { *out = Box::into_raw(Box::new(Info { dims: vec![-1, cols] })) as *mut c_void };
    ptr::null_mut()
}
extern "C" fn output_type(_: *const c_void, _: usize, out: *mut *mut c_void) -> *mut c_void {
    unsafe { *out = Box::into_raw(Box::new(Info { dims: vec![-1, 1] })) as *mut c_void };
    ptr::null_mut()
}
extern "C" fn onnx_type(_: *const c_void, out: *mut u32) -> *mut c_void {
    unsafe { *out = 1 };
    ptr::null_mut()
}
extern "C" fn cast_tensor_info(i: *const c_void, out: *mut *const c_void) -> *mut c_void {
    unsafe { *out = i };
    ptr::null_mut()
}
extern "C" fn elem_type(_: *const c_void, out: *mut u32) -> *mut c_void {
    unsafe { *out = 1 };
    ptr::null_mut()
}
extern "C" fn dims_count(i: *const c_void, out: *mut usize) -> *mut c_void {
    unsafe { *out = (*(i as *const Info)).dims.len() };
    ptr::null_mut()
}
extern "C" fn get_dims(i: *const c_void, out: *mut i64, n: usize) -> *mut c_void {
    let d = unsafe { &(*(i as *const Info)).dims };
    for k in 0..n {
        unsafe { *out.add(k) = d[k] };
    }
    ptr::null_mut()
}
extern "C" fn shape_elems(i: *const c_void, out: *mut usize) -> *mut c_void {
    unsafe { *out = (*(i as *const Info)).dims.iter().product::<i64>() as usize };
    ptr::null_mut()
}
extern "C" fn sym_dims(_: *const c_void, out: *mut *const c_char, n: usize) -> *mut c_void {
    for k in 0..n {
        unsafe { *out.add(k) = c"".as_ptr() };
    }
    ptr::null_mut()
}
extern "C" fn create_tensor(
    _info: usize,
    data: *mut c_void,
    len: usize,
    shape: *const i64,
    shape_len: usize,
    _ty: u32,
    out: *mut *mut c_void,
) -> *mut c_void {
    let dims = unsafe { std::slice::from_raw_parts(shape, shape_len) }.to_vec();
    let n = len / 4;
    let data = if n == 0 {
        vec![]
    } else {
        unsafe { std::slice::from_raw_parts(data as *const f32, n) }.to_vec()
    };
    unsafe { *out = Box::into_raw(Box::new(Value { t: Tensor { dims, data } })) as *mut c_void };
    ptr::null_mut()
}
extern "C" fn is_tensor(_: *const c_void, out: *mut i32) -> *mut c_void {
    unsafe { *out = 1 };
    ptr::null_mut()
}
extern "C" fn value_type(v: *const c_void, out: *mut *mut c_void) -> *mut c_void {
    let dims = unsafe { (*(v as *const Value)).t.dims.clone() };
    unsafe { *out = Box::into_raw(Box::new(Info { dims })) as *mut c_void };
    ptr::null_mut()
}
extern "C" fn tensor_data(v: *mut c_void, out: *mut *mut c_void) -> *mut c_void {
    unsafe { *out = (*(v as *mut Value)).t.data.as_mut_ptr() as *mut c_void };
    ptr::null_mut()
}
extern "C" fn release_value(v: *mut c_void) {
    if !v.is_null() {
        drop(unsafe { Box::from_raw(v as *mut Value) });
    }
}
extern "C" fn release_info(v: *mut c_void) {
    if !v.is_null() {
        drop(unsafe { Box::from_raw(v as *mut Info) });
    }
}
extern "C" fn a_alloc(_: *mut c_void, n: usize) -> *mut c_void {
    unsafe { libc::malloc(n) }
}
extern "C" fn a_free(_: *mut c_void, p: *mut c_void) {
    unsafe { libc::free(p) }
}
extern "C" fn a_info(_: *const c_void) -> *const c_void {
    16 as *const c_void
}
extern "C" fn get_allocator(out: *mut *mut c_void) -> *mut c_void {
    let a: &'static mut [usize; 8] = Box::leak(Box::new([0; 8]));
    a[0] = 20;
    a[1] = a_alloc as *const () as usize;
    a[2] = a_free as *const () as usize;
    a[3] = a_info as *const () as usize;
    a[4] = a_alloc as *const () as usize;
    unsafe { *out = a.as_mut_ptr() as *mut c_void };
    ptr::null_mut()
}
extern "C" fn alloc_free(_: *mut c_void, p: *mut c_void) -> *mut c_void {
    unsafe { libc::free(p) };
    ptr::null_mut()
}
extern "C" fn mem_name(_: *const c_void, out: *mut *const c_char) -> *mut c_void {
    unsafe { *out = c"Cpu".as_ptr() };
    ptr::null_mut()
}
extern "C" fn mem_int(_: *const c_void, out: *mut i32) -> *mut c_void {
    unsafe { *out = 0 };
    ptr::null_mut()
}
extern "C" fn mem_devtype(_: *const c_void, out: *mut i32) {
    unsafe { *out = 0 };
}
extern "C" fn run(
    s: *const c_void,
    _opts: usize,
    _names: usize,
    inputs: *const *const c_void,
    n: usize,
    _onames: usize,
    on: usize,
    outs: *mut *mut c_void,
) -> *mut c_void {
    assert!(n == 1 && on == 1);
    let m = unsafe { &*(s as *const Model) };
    let v = unsafe { &*(*inputs as *const Value) };
    let t = run_model(m, &v.t);
    unsafe { *outs = Box::into_raw(Box::new(Value { t })) as *mut c_void };
    ptr::null_mut()
}
extern "C" fn append_cpu(_: *mut c_void, _: i32) -> *mut c_void {
    ptr::null_mut()
}

struct SyncPtr<T>(T);
unsafe impl<T> Sync for SyncPtr<T> {}

extern "C" fn get_api(_: u32) -> *const OrtApi {
    const N: usize = std::mem::size_of::<OrtApi>() / std::mem::size_of::<usize>();
    let table = Box::leak(Box::new([unimplemented_slot as *const () as usize; N]));
    let api = table.as_mut_ptr() as *mut OrtApi;
    macro_rules! set {
        ($($f:ident = $e:expr),* $(,)?) => { $( unsafe {
            let slot = ptr::addr_of_mut!((*api).$f) as *mut usize;
            *slot = $e as *const () as usize;
        } )* };
    }
    set!(
        CreateEnv = create_env_like,
        CreateEnvWithCustomLogger = create_env5,
        ReleaseEnv = release_noop,
        EnableCpuMemArena = ok1, DisableCpuMemArena = ok1,
        EnableTelemetryEvents = ok1,
        DisableTelemetryEvents = ok1,
        CreateSessionOptions = create1,
        ReleaseSessionOptions = release_noop,
        SetIntraOpNumThreads = ok2,
        SetInterOpNumThreads = ok2,
        SetSessionGraphOptimizationLevel = ok2,
        AddSessionConfigEntry = ok3,
        DisablePerSessionThreads = ok1,
        CreateSessionFromArray = create_session,
        ReleaseSession = release_noop,
        SessionGetInputCount = count_one,
        SessionGetOutputCount = count_one,
        SessionGetInputName = input_name,
        SessionGetOutputName = output_name,
        SessionGetInputTypeInfo = input_type,
        SessionGetOutputTypeInfo = output_type,
        GetOnnxTypeFromTypeInfo = onnx_type,
        CastTypeInfoToTensorInfo = cast_tensor_info,
        GetTensorElementType = elem_type,
        GetDimensionsCount = dims_count,
        GetDimensions = get_dims,
        GetSymbolicDimensions = sym_dims,
        GetTensorShapeElementCount = shape_elems,
        ReleaseTypeInfo = release_info,
        ReleaseTensorTypeAndShapeInfo = release_info,
        GetTensorTypeAndShape = value_type,
        GetTypeInfo = value_type,
        CreateTensorWithDataAsOrtValue = create_tensor,
        IsTensor = is_tensor,
        GetTensorMutableData = tensor_data,
        ReleaseValue = release_value,
        GetAllocatorWithDefaultOptions = get_allocator,
        CreateAllocator = ok3,
        ReleaseAllocator = release_noop,
        AllocatorFree = alloc_free,
        CreateMemoryInfo = create_mem_info,
        CreateCpuMemoryInfo = create_env_like,
        GetTensorMemoryInfo = create_env_like2,
        ReleaseMemoryInfo = release_noop,
        MemoryInfoGetName = mem_name,
        MemoryInfoGetId = mem_int,
        MemoryInfoGetMemType = mem_int,
        MemoryInfoGetType = mem_int,
        MemoryInfoGetDeviceType = mem_devtype,
        Run = run,
        ReleaseStatus = release_noop,
    );
    api
}
extern "C" fn create_env_like2(_: usize, out: *mut *mut c_void) -> *mut c_void {
    unsafe { *out = 16 as *mut c_void };
    ptr::null_mut()
}
extern "C" fn version() -> *const c_char {
    c"1.20.0".as_ptr()
}

#[no_mangle]
pub extern "C" fn OrtGetApiBase() -> *const OrtApiBase {
    let base: &'static SyncPtr<OrtApiBase> = Box::leak(Box::new(SyncPtr(unsafe {
        std::mem::transmute::<[usize; 2], OrtApiBase>([
            get_api as *const () as usize,
            version as *const () as usize,
        ])
    })));
    &base.0
}

#[no_mangle]
pub extern "C" fn OrtSessionOptionsAppendExecutionProvider_CPU(
    o: *mut c_void,
    a: i32,
) -> *mut c_void {
    append_cpu(o, a)
}
