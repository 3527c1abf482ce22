//! Files of the simulated disk, with tokio's behaviour: a write returns once it
//! is handed to the background, and its error surfaces in the next operation.
use std::{
    future::Future,
    io::{self, SeekFrom},
    path::Path,
    pin::Pin,
    task::{ready, Context, Poll},
};

use real_tokio::io::{AsyncRead, AsyncSeek, AsyncWrite, ReadBuf};
use simrt::{
    current, point,
    task::{promise, Promise},
};

fn key(p: impl AsRef<Path>) -> String {
    // Files are named by their last component, so that the scratch
    // directory a run happens to use does not matter.
    p.as_ref().file_name().map(|n| n.to_string_lossy().into_owned()).unwrap_or_default()
}

#[derive(Clone, Debug, Default)]
pub struct OpenOptions {
    read: bool,
    write: bool,
    append: bool,
    create: bool,
    create_new: bool,
    truncate: bool,
}
macro_rules! opt {
    ($($n:ident),*) => { $(pub fn $n(&mut self, v: bool) -> &mut Self { self.$n = v; self })* };
}
impl OpenOptions {
    pub fn new() -> Self {
        Self::default()
    }
    opt!(read, write, append, create, create_new, truncate);
    pub fn mode(&mut self, _m: u32) -> &mut Self {
        self
    }
    pub async fn open(&self, path: impl AsRef<Path>) -> io::Result<File> {
        let sim = current();
        let k = key(path);
        sim.disk.open(&sim, &k, self.create, self.create_new, self.truncate)?;
        Ok(File {
            path: k,
            append: self.append,
            read: self.read,
            write: self.write || self.append,
            pos: 0,
            op: None,
            err: None,
        })
    }
}

enum Done {
    Io(io::Result<u64>),
}

pub struct File {
    path: String,
    append: bool,
    read: bool,
    write: bool,
    pos: u64,
    op: Option<Promise<Done>>,
    err: Option<io::Error>,
}

impl std::fmt::Debug for File {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "File({})", self.path)
    }
}

#[derive(Clone, Debug)]
pub struct Metadata {
    len: u64,
}
impl Metadata {
    pub fn len(&self) -> u64 {
        self.len
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn is_file(&self) -> bool {
        true
    }
    pub fn is_dir(&self) -> bool {
        false
    }
}

impl File {
    pub async fn open(path: impl AsRef<Path>) -> io::Result<File> {
        OpenOptions::new().read(true).open(path).await
    }
    pub async fn create(path: impl AsRef<Path>) -> io::Result<File> {
        OpenOptions::new().write(true).create(true).truncate(true).open(path).await
    }
    pub fn options() -> OpenOptions {
        OpenOptions::new()
    }

    fn poll_inflight(&mut self, cx: &mut Context<'_>) -> Poll<()> {
        if let Some(op) = self.op.as_mut() {
            let Done::Io(r) = ready!(Pin::new(op).poll(cx));
            self.op = None;
            match r {
                Ok(end) => {
                    if end != u64::MAX {
                        self.pos = end
                    }
                }
                Err(e) => self.err = Some(e),
            }
        }
        Poll::Ready(())
    }
    async fn inflight(&mut self) -> io::Result<()> {
        std::future::poll_fn(|cx| self.poll_inflight(cx)).await;
        match self.err.take() {
            Some(e) => Err(e),
            None => Ok(()),
        }
    }
    async fn sync(&mut self) -> io::Result<()> {
        self.inflight().await?;
        point("disk.sync");
        let sim = current();
        let (r, p) = promise();
        sim.disk.sync(&sim, &self.path, move |_, v| r.resolve(v));
        p.await
    }
    // tokio takes &self and an internal lock; the simulation is single-threaded.
    #[allow(invalid_reference_casting, clippy::mut_from_ref)]
    fn me(&self) -> &mut File {
        unsafe { &mut *(self as *const File as *mut File) }
    }
    pub async fn sync_all(&self) -> io::Result<()> {
        self.me().sync().await
    }
    pub async fn sync_data(&self) -> io::Result<()> {
        self.me().sync().await
    }
    pub async fn set_len(&self, n: u64) -> io::Result<()> {
        let me = self.me();
        me.inflight().await?;
        point("disk.truncate");
        let sim = current();
        let (r, p) = promise();
        sim.disk.submit(&sim, &self.path, None, vec![], Some(n), move |_, v| r.resolve(v));
        p.await.map(|_| ())
    }
    pub async fn metadata(&self) -> io::Result<Metadata> {
        self.me().inflight().await?;
        Ok(Metadata { len: current().disk.len(&self.path) })
    }
    pub async fn try_clone(&self) -> io::Result<File> {
        self.me().inflight().await?;
        Ok(File {
            path: self.path.clone(),
            append: self.append,
            read: self.read,
            write: self.write,
            pos: self.pos,
            op: None,
            err: None,
        })
    }
}

impl AsyncRead for File {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        ready!(self.poll_inflight(cx));
        if let Some(e) = self.err.take() {
            return Poll::Ready(Err(e));
        }
        if !self.read {
            return Poll::Ready(Err(io::Error::from_raw_os_error(9)));
        }
        let sim = current();
        let d = sim.disk.read(&sim, &self.path, self.pos, buf.remaining())?;
        buf.put_slice(&d);
        self.pos += d.len() as u64;
        Poll::Ready(Ok(()))
    }
}

impl AsyncSeek for File {
    fn start_seek(mut self: Pin<&mut Self>, to: SeekFrom) -> io::Result<()> {
        if self.op.is_some() {
            return Err(io::Error::new(
                io::ErrorKind::Other,
                "other file operation is pending, call poll_complete before start_seek",
            ));
        }
        let len = current().disk.len(&self.path) as i128;
        let n = match to {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::End(d) => len + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if n < 0 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = n as u64;
        Ok(())
    }
    fn poll_complete(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<u64>> {
        ready!(self.poll_inflight(cx));
        match self.err.take() {
            Some(e) => Poll::Ready(Err(e)),
            None => Poll::Ready(Ok(self.pos)),
        }
    }
}

impl AsyncWrite for File {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        ready!(self.poll_inflight(cx));
        if let Some(e) = self.err.take() {
            return Poll::Ready(Err(e));
        }
        if !self.write {
            return Poll::Ready(Err(io::Error::from_raw_os_error(9)));
        }
        point("disk.write");
        let n = buf.len().min(2 * 1024 * 1024);
        let sim = current();
        let (r, p) = promise();
        let off = if self.append { None } else { Some(self.pos) };
        sim.disk.submit(&sim, &self.path, off, buf[..n].to_vec(), None, move |_, v| r.resolve(Done::Io(v)));
        self.op = Some(p);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        ready!(self.poll_inflight(cx));
        match self.err.take() {
            Some(e) => Poll::Ready(Err(e)),
            None => Poll::Ready(Ok(())),
        }
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.poll_flush(cx)
    }
}

pub async fn read(path: impl AsRef<Path>) -> io::Result<Vec<u8>> {
    let sim = current();
    let k = key(path);
    if !sim.disk.exists(&k) {
        return Err(io::ErrorKind::NotFound.into());
    }
    sim.disk.read(&sim, &k, 0, usize::MAX / 2)
}
pub async fn read_to_string(path: impl AsRef<Path>) -> io::Result<String> {
    String::from_utf8(read(path).await?).map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
}
pub async fn write(path: impl AsRef<Path>, data: impl AsRef<[u8]>) -> io::Result<()> {
    use real_tokio::io::AsyncWriteExt;
    let mut f = File::create(path).await?;
    f.write_all(data.as_ref()).await?;
    f.flush().await
}
pub async fn create_dir_all(_path: impl AsRef<Path>) -> io::Result<()> {
    Ok(())
}
pub async fn rename(a: impl AsRef<Path>, b: impl AsRef<Path>) -> io::Result<()> {
    point("disk.rename");
    current().disk.rename(&key(a), &key(b))
}
pub async fn remove_file(a: impl AsRef<Path>) -> io::Result<()> {
    point("disk.remove");
    current().disk.remove(&key(a))
}
pub async fn metadata(a: impl AsRef<Path>) -> io::Result<Metadata> {
    let sim = current();
    let k = key(a);
    if !sim.disk.exists(&k) {
        return Err(io::ErrorKind::NotFound.into());
    }
    Ok(Metadata { len: sim.disk.len(&k) })
}
pub async fn try_exists(a: impl AsRef<Path>) -> io::Result<bool> {
    Ok(current().disk.exists(&key(a)))
}
