//! A tweak server on the loopback network that answers as told, and the runtime the clients run in.
use std::cell::OnceCell;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Framing {
    Length,
    Chunked,
    Close,
}

#[derive(Clone, Debug)]
pub struct Answer {
    pub status: u16,
    pub body: Vec<u8>,
    pub framing: Framing,
    /// Send only that many bytes of the body, then close.
    pub cut: Option<usize>,
    pub delay_ms: u64,
    pub pieces: usize,
    pub content_type: Option<&'static str>,
    /// Close without an answer.
    pub hang_up: bool,
}

impl Answer {
    pub fn ok(body: impl Into<Vec<u8>>) -> Answer {
        Answer {
            status: 200,
            body: body.into(),
            framing: Framing::Length,
            cut: None,
            delay_ms: 0,
            pieces: 1,
            content_type: Some("application/json; charset=utf-8"),
            hang_up: false,
        }
    }
}

#[derive(Default)]
pub struct State {
    pub answers: HashMap<String, Answer>,
    pub log: Vec<(String, String)>,
}

struct Server {
    port: u16,
    state: Arc<Mutex<Arc<Mutex<State>>>>,
}

thread_local! {
    static SERVER: OnceCell<Server> = const { OnceCell::new() };
    static RT: tokio::runtime::Runtime =
        tokio::runtime::Builder::new_current_thread().enable_all().build().expect("a runtime");
}

/// Runs the future; `None` when it takes longer than that.
pub fn run<T>(secs: u64, f: impl std::future::Future<Output = T>) -> Option<T> {
    RT.with(|rt| rt.block_on(async { tokio::time::timeout(Duration::from_secs(secs), f).await.ok() }))
}

/// This thread's server with new answers: its address and what it is asked from now on.
pub fn serve(answers: HashMap<String, Answer>) -> (String, Arc<Mutex<State>>) {
    SERVER.with(|s| {
        let s = s.get_or_init(|| {
            let l = TcpListener::bind("127.0.0.1:0").expect("a loopback port");
            let port = l.local_addr().unwrap().port();
            let state: Arc<Mutex<Arc<Mutex<State>>>> = Default::default();
            let st = state.clone();
            std::thread::spawn(move || {
                for c in l.incoming().flatten() {
                    let st = st.lock().unwrap().clone();
                    let _ = std::thread::Builder::new().stack_size(256 << 10).spawn(move || {
                        let _ = connection(c, st);
                    });
                }
            });
            Server { port, state }
        });
        let new = Arc::new(Mutex::new(State { answers, log: vec![] }));
        *s.state.lock().unwrap() = new.clone();
        (format!("http://127.0.0.1:{}", s.port), new)
    })
}

fn connection(c: TcpStream, state: Arc<Mutex<State>>) -> std::io::Result<()> {
    c.set_nodelay(true)?;
    let mut w = c.try_clone()?;
    let mut r = BufReader::new(c);
    loop {
        let mut line = String::new();
        if r.read_line(&mut line)? == 0 {
            return Ok(());
        }
        let mut parts = line.split(' ');
        let method = parts.next().unwrap_or("").to_string();
        let target = parts.next().unwrap_or("").to_string();
        let mut length = 0usize;
        loop {
            let mut h = String::new();
            if r.read_line(&mut h)? == 0 {
                return Ok(());
            }
            let h = h.trim();
            if h.is_empty() {
                break;
            }
            if let Some(v) = h.to_ascii_lowercase().strip_prefix("content-length:") {
                length = v.trim().parse().unwrap_or(0);
            }
        }
        let mut body = vec![0; length.min(1 << 20)];
        r.read_exact(&mut body)?;
        let a = {
            let mut s = state.lock().unwrap();
            s.log.push((method, target.clone()));
            s.answers.get(&target).cloned()
        };
        let a = a.unwrap_or_else(|| Answer { status: 404, ..Answer::ok("not found") });
        if a.delay_ms > 0 {
            std::thread::sleep(Duration::from_millis(a.delay_ms));
        }
        if a.hang_up {
            return Ok(());
        }
        let mut head = format!("HTTP/1.1 {} X\r\n", a.status);
        if let Some(t) = a.content_type {
            head.push_str(&format!("Content-Type: {t}\r\n"));
        }
        match a.framing {
            Framing::Length => head.push_str(&format!("Content-Length: {}\r\n", a.body.len())),
            Framing::Chunked => head.push_str("Transfer-Encoding: chunked\r\n"),
            Framing::Close => head.push_str("Connection: close\r\n"),
        }
        head.push_str("\r\n");
        w.write_all(head.as_bytes())?;
        let sent = &a.body[..a.cut.unwrap_or(a.body.len()).min(a.body.len())];
        let step = sent.len().div_ceil(a.pieces.max(1)).max(1);
        for p in sent.chunks(step) {
            if a.framing == Framing::Chunked {
                w.write_all(format!("{:x}\r\n", p.len()).as_bytes())?;
                w.write_all(p)?;
                w.write_all(b"\r\n")?;
            } else {
                w.write_all(p)?;
            }
            w.flush()?;
            if a.pieces > 1 {
                std::thread::sleep(Duration::from_micros(300));
            }
        }
        if a.cut.is_some() {
            return Ok(());
        }
        match a.framing {
            Framing::Chunked => w.write_all(b"0\r\n\r\n")?,
            Framing::Close => return Ok(()),
            Framing::Length => (),
        }
        w.flush()?;
    }
}
