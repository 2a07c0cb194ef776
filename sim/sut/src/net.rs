//! The real server and the real client, on runtimes of their own in one
//! process; what is between them is the simulated network.
use crate::db::Db;
use indradb::*;
use indradb_proto::{run_server, run_server_with_plugins, Client, ClientError};
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::time::Duration;
pub use tokio::runtime as tokio_rt;
use tokio::runtime::{Builder, Handle, Runtime};
use tonic::transport::Endpoint;
use uuid::Uuid;

pub struct Server {
    pub rt: Runtime,
    /// Why the server stopped, if it did.
    pub stopped: Arc<Mutex<Option<String>>>,
}
pub const PORT: u16 = 27615;

pub fn runtime(workers: usize, name: &str) -> Runtime {
    Builder::new_multi_thread().worker_threads(workers).thread_name(name).enable_all().build().unwrap()
}

impl Server {
    /// As the repository's server binary does it.
    pub fn start(db: &Db, workers: usize, plugins: Option<String>) -> Server {
        let rt = runtime(workers, "srv");
        let listener = rt.block_on(tokio::net::TcpListener::bind(("127.0.0.1", PORT))).unwrap();
        let stopped = Arc::new(Mutex::new(None));
        let st = stopped.clone();
        macro_rules! go {
            ($d:expr) => {{
                let d = $d.clone();
                rt.spawn(async move {
                    let r = match plugins {
                        Some(p) => unsafe { run_server_with_plugins(d, listener, &p).await.map_err(|e| e.to_string()) },
                        None => run_server(d, listener).await.map_err(|e| e.to_string()),
                    };
                    *st.lock().unwrap() = Some(format!("{r:?}"));
                })
            }};
        }
        match db {
            Db::Mem(d) => go!(d),
            Db::Rocks(d) => go!(d),
            Db::Flaky(d) => go!(d),
        };
        Server { rt, stopped }
    }
    pub fn stop(self) {
        self.rt.shutdown_background();
    }
}

/// Why a call through the client failed.
#[derive(Debug)]
pub enum NetError {
    /// The server answered with an error.
    Status(String, String),
    Conversion(String),
    /// Connection errors and everything else.
    Other(String),
    Timeout,
}
impl From<ClientError> for NetError {
    fn from(e: ClientError) -> NetError {
        match e {
            ClientError::Grpc { inner } => {
                let mut m = inner.message().to_string();
                let mut s: Option<&dyn std::error::Error> = std::error::Error::source(&inner);
                if s.is_some() {
                    // An error of the transport below.
                    while let Some(e) = s {
                        m = format!("{m}: {e}");
                        s = e.source();
                    }
                    return NetError::Other(format!("{:?} {m}", inner.code()));
                }
                NetError::Status(format!("{:?}", inner.code()), m)
            }
            ClientError::Conversion { inner } => NetError::Conversion(inner.to_string()),
            e => NetError::Other(format!("{e}")),
        }
    }
}

#[derive(Clone)]
pub struct Remote {
    rt: Handle,
    c: Client,
    pub timeout: Duration,
}
type R<T> = std::result::Result<T, NetError>;

impl Remote {
    /// `window`: the flow control windows of the connection, 0 for the defaults.
    pub fn connect(rt: &Handle, timeout: Duration, window: u32) -> R<Remote> {
        let mut e = Endpoint::from_shared(format!("http://127.0.0.1:{PORT}")).unwrap();
        if window > 0 {
            e = e.initial_connection_window_size(window).initial_stream_window_size(window);
        }
        let c = rt.block_on(async { tokio::time::timeout(timeout, Client::new(e)).await });
        match c {
            Ok(Ok(c)) => Ok(Remote { rt: rt.clone(), c, timeout }),
            Ok(Err(e)) => Err(e.into()),
            Err(_) => Err(NetError::Timeout),
        }
    }
    fn run<T>(&self, f: impl Future<Output = std::result::Result<T, ClientError>>) -> R<T> {
        match self.rt.block_on(async { tokio::time::timeout(self.timeout, f).await }) {
            Ok(Ok(v)) => Ok(v),
            Ok(Err(e)) => Err(e.into()),
            Err(_) => Err(NetError::Timeout),
        }
    }
    pub fn ping(&mut self) -> R<()> {
        let mut c = self.c.clone();
        self.run(async move { c.ping().await })
    }
    pub fn sync(&mut self) -> R<()> {
        let mut c = self.c.clone();
        self.run(async move { c.sync().await })
    }
    pub fn create_vertex(&mut self, v: &Vertex) -> R<bool> {
        let mut c = self.c.clone();
        self.run(async move { c.create_vertex(v).await })
    }
    pub fn create_vertex_from_type(&mut self, t: Identifier) -> R<Uuid> {
        let mut c = self.c.clone();
        self.run(async move { c.create_vertex_from_type(t).await })
    }
    pub fn create_edge(&mut self, e: &Edge) -> R<bool> {
        let mut c = self.c.clone();
        self.run(async move { c.create_edge(e).await })
    }
    pub fn get(&mut self, q: Query) -> R<Vec<QueryOutputValue>> {
        let mut c = self.c.clone();
        self.run(async move { c.get(q).await })
    }
    pub fn delete(&mut self, q: Query) -> R<()> {
        let mut c = self.c.clone();
        self.run(async move { c.delete(q).await })
    }
    pub fn set_properties(&mut self, q: Query, n: Identifier, x: &Json) -> R<()> {
        let mut c = self.c.clone();
        self.run(async move { c.set_properties(q, n, x).await })
    }
    pub fn bulk_insert(&mut self, items: Vec<BulkInsertItem>) -> R<()> {
        let mut c = self.c.clone();
        self.run(async move { c.bulk_insert(items).await })
    }
    pub fn index_property(&mut self, n: Identifier) -> R<()> {
        let mut c = self.c.clone();
        self.run(async move { c.index_property(n).await })
    }
    pub fn execute_plugin(&mut self, name: &str, arg: Json) -> R<Json> {
        let mut c = self.c.clone();
        self.run(async move { c.execute_plugin(name, arg).await })
    }
}

/// How a foreign client ends its side of a call.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ending {
    /// As it should.
    Finish,
    /// RST_STREAM with this code (8 is CANCEL, 0 NO_ERROR).
    Reset(u32),
    /// The connection closes.
    Close,
    /// It stays open and silent for so many milliseconds, then closes.
    Hold(u64),
}
/// One part of what a foreign client sends.
#[derive(Clone, Debug)]
pub enum Part {
    /// A message of the call's type, framed as gRPC frames it.
    Msg(Vec<u8>),
    /// Bytes, as they are.
    Bytes(Vec<u8>),
    /// A pause in milliseconds.
    Wait(u64),
}
pub fn encode_item(i: BulkInsertItem) -> Vec<u8> {
    prost::Message::encode_to_vec(&indradb_proto::BulkInsertItem::from(i))
}
pub fn encode_edge(e: Edge) -> Vec<u8> {
    prost::Message::encode_to_vec(&indradb_proto::Edge::from(e))
}
pub fn encode_query(q: Query) -> Vec<u8> {
    prost::Message::encode_to_vec(&indradb_proto::Query::from(q))
}

/// A client written by somebody else: sends these parts as the request of one
/// call and ends it so. Returns the gRPC status if the server answered:
/// None is no answer.
pub fn foreign_call(rt: &Handle, path: &str, parts: Vec<Part>, end: Ending, read: bool) -> Option<i32> {
    let path = format!("http://127.0.0.1/indradb.IndraDB/{path}");
    rt.block_on(async move {
        let s = tokio::net::TcpStream::connect(("127.0.0.1", PORT)).await.ok()?;
        let (h, conn) = h2::client::handshake(s).await.ok()?;
        let conn = tokio::spawn(async move {
            let _ = conn.await;
        });
        let r = foreign_stream(h, path, parts, end, read).await;
        conn.abort();
        let _ = conn.await;
        r
    })
}
async fn foreign_stream(h: h2::client::SendRequest<bytes::Bytes>, path: String, parts: Vec<Part>, end: Ending, read: bool) -> Option<i32> {
    let mut h = h.ready().await.ok()?;
    let req = http::Request::builder().method("POST").uri(path).header("te", "trailers").header("content-type", "application/grpc").body(()).ok()?;
    let (resp, mut tx) = h.send_request(req, false).ok()?;
    // A server may answer before it was told everything, and stop listening.
    'parts: for p in parts {
        let b: bytes::Bytes = match p {
            Part::Msg(m) => {
                let mut v = vec![0u8];
                v.extend((m.len() as u32).to_be_bytes());
                v.extend(m);
                v.into()
            }
            Part::Bytes(b) => b.into(),
            Part::Wait(ms) => {
                tokio::time::sleep(Duration::from_millis(ms)).await;
                continue;
            }
        };
        let mut b = b;
        while !b.is_empty() {
            tx.reserve_capacity(b.len());
            let n = match std::future::poll_fn(|cx| tx.poll_capacity(cx)).await {
                Some(Ok(n)) => n.min(b.len()),
                _ => break 'parts,
            };
            if tx.send_data(b.split_to(n), false).is_err() {
                break 'parts;
            }
        }
    }
    match end {
        Ending::Finish => {
            let _ = tx.send_data(bytes::Bytes::new(), true);
        }
        Ending::Reset(c) => {
            tx.send_reset(c.into());
            // The frame still has to leave.
            tokio::time::sleep(Duration::from_millis(200)).await;
            return None;
        }
        Ending::Close => return None,
        Ending::Hold(ms) => {
            tokio::time::sleep(Duration::from_millis(ms)).await;
            return None;
        }
    }
    let resp = tokio::time::timeout(Duration::from_secs(600), resp).await.ok()?.ok()?;
    let status = |h: &http::HeaderMap| h.get("grpc-status").and_then(|v| v.to_str().ok()).and_then(|s| s.parse().ok());
    if let Some(s) = status(resp.headers()) {
        return Some(s);
    }
    let mut body = resp.into_body();
    if !read {
        return None;
    }
    while let Some(b) = body.data().await {
        let b = b.ok()?;
        let _ = body.flow_control().release_capacity(b.len());
    }
    match body.trailers().await {
        Ok(Some(t)) => status(&t),
        _ => None,
    }
}
/// Bytes on a connection that are no HTTP at all.
pub fn foreign_bytes(rt: &Handle, b: &[u8], hold_ms: u64) {
    rt.block_on(async {
        use tokio::io::AsyncWriteExt;
        if let Ok(mut s) = tokio::net::TcpStream::connect(("127.0.0.1", PORT)).await {
            let _ = s.write_all(b).await;
            tokio::time::sleep(Duration::from_millis(hold_ms)).await;
        }
    });
}
/// Many calls at once on one connection, which are cancelled (RST_STREAM with
/// `code`, or the connection closes) after so many milliseconds.
pub fn foreign_crowd(rt: &Handle, calls: &[(&str, Vec<u8>)], n: usize, ms: u64, code: Option<u32>) {
    rt.block_on(async move {
        let Ok(s) = tokio::net::TcpStream::connect(("127.0.0.1", PORT)).await else { return };
        let Ok((h, conn)) = h2::client::handshake(s).await else { return };
        let conn = tokio::spawn(async move {
            let _ = conn.await;
        });
        let mut open = Vec::new();
        for i in 0..n {
            let (path, m) = &calls[i % calls.len()];
            let Ok(Ok(mut h)) = tokio::time::timeout(Duration::from_secs(60), h.clone().ready()).await else { break };
            let Ok(req) = http::Request::builder().method("POST").uri(format!("http://127.0.0.1/indradb.IndraDB/{path}")).header("te", "trailers").header("content-type", "application/grpc").body(()) else { break };
            let Ok((resp, mut tx)) = h.send_request(req, false) else { break };
            let mut v = vec![0u8];
            v.extend((m.len() as u32).to_be_bytes());
            v.extend(m);
            let _ = tx.send_data(v.into(), true);
            open.push((resp, tx));
        }
        tokio::time::sleep(Duration::from_millis(ms)).await;
        if let Some(c) = code {
            for (_, tx) in &mut open {
                tx.send_reset(c.into());
            }
            tokio::time::sleep(Duration::from_millis(200)).await;
        }
        conn.abort();
        let _ = conn.await;
    });
}
/// Many calls that are begun at once, of which the rest does not arrive.
pub fn foreign_begun(rt: &Handle, path: &str, parts: &[Part], n: usize, ms: u64) {
    let path = format!("http://127.0.0.1/indradb.IndraDB/{path}");
    rt.block_on(async move {
        let Ok(s) = tokio::net::TcpStream::connect(("127.0.0.1", PORT)).await else { return };
        let Ok((h, conn)) = h2::client::handshake(s).await else { return };
        let conn = tokio::spawn(async move {
            let _ = conn.await;
        });
        let ts: Vec<_> = (0..n).map(|_| tokio::spawn(foreign_stream(h.clone(), path.clone(), parts.to_vec(), Ending::Hold(ms), false))).collect();
        for t in ts {
            let _ = t.await;
        }
        conn.abort();
        let _ = conn.await;
    });
}
/// Connections that say nothing.
pub fn foreign_idle(rt: &Handle, n: usize, hold_ms: u64) {
    rt.block_on(async {
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(tokio::net::TcpStream::connect(("127.0.0.1", PORT)).await);
        }
        tokio::time::sleep(Duration::from_millis(hold_ms)).await;
    });
}

/// Runs the `main` of the server binary.
pub fn server_main(args: &[&str], workers: usize) -> std::result::Result<(), String> {
    extern "C" {
        fn sim_args(a: *const *const std::ffi::c_char, n: i32) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
        fn open(p: *const std::ffi::c_char, f: i32, ...) -> i32;
    }
    let v: Vec<std::ffi::CString> = args.iter().map(|s| std::ffi::CString::new(*s).unwrap()).collect();
    let p: Vec<_> = v.iter().map(|s| s.as_ptr()).collect();
    std::env::set_var("TOKIO_WORKER_THREADS", workers.to_string());
    unsafe {
        assert_eq!(sim_args(p.as_ptr(), p.len() as i32), 0);
        // What it prints goes nowhere.
        let fd = open(c"/dev/null".as_ptr(), 2);
        assert!(fd >= 0);
        dup2(fd, 1);
    }
    servermain::run()
}
