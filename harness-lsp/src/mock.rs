//! Stand-ins for what the proxy's main() talks to: the editor's streams, the
//! language server's process and the runtime's task spawning.
#![allow(dead_code, unused_imports)]
use std::cell::RefCell;
use std::pin::Pin;
use std::task::{Context, Poll};

/// A byte stream delivered in pieces ending at the given cut positions; `slow`
/// bits make the reader answer "not ready" once before a piece.
pub struct Source {
    pub data: Vec<u8>,
    pub pos: usize,
    pub cuts: [usize; 3],
    pub slow: [bool; 4],
    pub waited: bool,
    /// the stream ends after the data (otherwise it stays silent)
    pub eof: bool,
}
impl Source {
    pub fn silent() -> Source {
        Source { data: Vec::new(), pos: 0, cuts: [0; 3], slow: [false; 4], waited: false, eof: false }
    }
}
/// What the proxy wrote; `short` makes the first write accept one byte only.
pub struct Sink {
    pub got: Vec<u8>,
    pub short: bool,
}
pub struct World {
    pub source: [Source; 3],
    pub sink: [Sink; 2],
    pub progress: bool,
}
thread_local! {
    pub static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
}
pub const EDITOR: usize = 0;
pub const SERVER: usize = 1;
pub const STDERR: usize = 2;

pub struct Rd(usize);
impl ::tokio::io::AsyncRead for Rd {
    fn poll_read(self: Pin<&mut Self>, _cx: &mut Context<'_>, buf: &mut ::tokio::io::ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        WORLD.with_borrow_mut(|w| {
            let w = w.as_mut().unwrap();
            let s = &mut w.source[self.0];
            if s.pos == s.data.len() {
                return if s.eof { Poll::Ready(Ok(())) } else { Poll::Pending };
            }
            w.progress = true;
            let mut end = s.data.len();
            let mut k = 3;
            let mut i = 3;
            while i > 0 {
                i -= 1;
                if s.cuts[i] > s.pos && s.cuts[i] < end {
                    end = s.cuts[i];
                    k = i;
                }
            }
            if s.slow[k] && !s.waited {
                s.waited = true;
                return Poll::Pending;
            }
            s.waited = false;
            let n = (end - s.pos).min(buf.remaining());
            buf.put_slice(&s.data[s.pos..s.pos + n]);
            s.pos += n;
            Poll::Ready(Ok(()))
        })
    }
}
pub struct Wr(usize);
impl ::tokio::io::AsyncWrite for Wr {
    fn poll_write(self: Pin<&mut Self>, _cx: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        WORLD.with_borrow_mut(|w| {
            let w = w.as_mut().unwrap();
            w.progress = true;
            let s = &mut w.sink[self.0];
            let n = if s.short { buf.len().min(1) } else { buf.len() };
            s.short = false;
            s.got.extend_from_slice(&buf[..n]);
            Poll::Ready(Ok(n))
        })
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

pub mod process {
    pub use std::process::*;
    #[derive(Debug)]
    pub struct Command;
    impl Command {
        pub fn new<S: AsRef<std::ffi::OsStr>>(_: S) -> Command {
            Command
        }
        pub fn arg<S: AsRef<std::ffi::OsStr>>(&mut self, _: S) -> &mut Command {
            self
        }
        pub fn args<I: IntoIterator>(&mut self, _: I) -> &mut Command {
            self
        }
        pub fn stdin<T>(&mut self, _: T) -> &mut Command {
            self
        }
        pub fn stdout<T>(&mut self, _: T) -> &mut Command {
            self
        }
        pub fn stderr<T>(&mut self, _: T) -> &mut Command {
            self
        }
        pub fn env<K: AsRef<std::ffi::OsStr>, V: AsRef<std::ffi::OsStr>>(&mut self, _: K, _: V) -> &mut Command {
            self
        }
        pub fn status(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
}
pub mod env_logger {
    pub fn init() {}
    pub fn try_init() -> Result<(), ()> {
        Ok(())
    }
}
pub mod tokio {
    pub use ::tokio::*;
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    /// a spawned task: makes progress whenever the main task is polled
    pub struct JoinHandle<T>(Pin<Box<dyn Future<Output = T>>>);
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, std::io::Error>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            self.0.as_mut().poll(cx).map(Ok)
        }
    }
    impl<T> JoinHandle<T> {
        pub fn abort(&self) {}
    }
    pub fn spawn<F: Future + 'static>(f: F) -> JoinHandle<F::Output> {
        JoinHandle(Box::pin(f))
    }
    pub mod task {
        pub use super::{spawn, JoinHandle};
        pub use ::tokio::task::*;
    }
    pub mod io {
        pub use ::tokio::io::*;
        pub fn stdin() -> super::super::Rd {
            super::super::Rd(super::super::EDITOR)
        }
        pub fn stdout() -> super::super::Wr {
            super::super::Wr(super::super::EDITOR)
        }
    }
    pub mod process {
        use super::super::{Rd, Wr, SERVER, STDERR};
        pub use ::tokio::process::*;
        pub struct Child {
            pub stdin: Option<Wr>,
            pub stdout: Option<Rd>,
            pub stderr: Option<Rd>,
        }
        impl Child {
            pub async fn kill(&mut self) -> std::io::Result<()> {
                Ok(())
            }
            pub fn start_kill(&mut self) -> std::io::Result<()> {
                Ok(())
            }
            pub async fn wait(&mut self) -> std::io::Result<()> {
                Ok(())
            }
        }
        #[derive(Debug)]
        pub struct Command;
        impl Command {
            pub fn new<S: AsRef<std::ffi::OsStr>>(_: S) -> Command {
                Command
            }
            pub fn arg<S: AsRef<std::ffi::OsStr>>(&mut self, _: S) -> &mut Command {
                self
            }
            pub fn args<I: IntoIterator>(&mut self, _: I) -> &mut Command {
                self
            }
            pub fn stdin<T>(&mut self, _: T) -> &mut Command {
                self
            }
            pub fn stdout<T>(&mut self, _: T) -> &mut Command {
                self
            }
            pub fn stderr<T>(&mut self, _: T) -> &mut Command {
                self
            }
            pub fn kill_on_drop(&mut self, _: bool) -> &mut Command {
                self
            }
            pub fn env<K: AsRef<std::ffi::OsStr>, V: AsRef<std::ffi::OsStr>>(&mut self, _: K, _: V) -> &mut Command {
                self
            }
            pub fn spawn(&mut self) -> std::io::Result<Child> {
                Ok(Child { stdin: Some(Wr(SERVER)), stdout: Some(Rd(SERVER)), stderr: Some(Rd(STDERR)) })
            }
        }
    }
}
