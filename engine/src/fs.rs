//! In-memory file system of the environment model. File bytes may be symbolic.
use std::collections::BTreeMap;
use std::rc::Rc;

pub type B = (u8, u32, u8);

#[derive(Clone)]
pub struct Fd {
    pub ino: usize,
    pub pos: usize,
    pub read: bool,
    pub write: bool,
    pub append: bool,
    pub dir: Option<Rc<Vec<(String, bool, usize)>>>,
}

#[derive(Clone)]
pub struct Fs {
    /// absolute path -> inode
    pub names: BTreeMap<String, usize>,
    /// None = directory
    pub inodes: Vec<Option<Rc<Vec<B>>>>,
    pub fds: Vec<Option<Fd>>,
    pub cwd: String,
}

pub const ENOENT: i32 = 2;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EEXIST: i32 = 17;
pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const ENOSPC: i32 = 28;
pub const EACCES: i32 = 13;
pub const ENOTEMPTY: i32 = 39;

impl Fs {
    pub fn new() -> Fs {
        let mut f = Fs { names: BTreeMap::new(), inodes: vec![], fds: vec![None; 3], cwd: "/w".into() };
        f.add_dir("/");
        f.add_dir("/w");
        f.add_dir("/tmp");
        f
    }
    pub fn add_dir(&mut self, p: &str) {
        let i = self.inodes.len();
        self.inodes.push(None);
        self.names.insert(p.into(), i);
    }
    pub fn norm(&self, p: &str) -> String {
        let full = if p.starts_with('/') { p.to_string() } else { format!("{}/{}", self.cwd, p) };
        let mut parts: Vec<&str> = vec![];
        for c in full.split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    parts.pop();
                }
                x => parts.push(x),
            }
        }
        format!("/{}", parts.join("/"))
    }
    pub fn parent(p: &str) -> &str {
        match p.rfind('/') {
            Some(0) | None => "/",
            Some(i) => &p[..i],
        }
    }
    pub fn lookup(&self, p: &str) -> Result<usize, i32> {
        let n = self.norm(p);
        match self.names.get(&n) {
            Some(i) => Ok(*i),
            None => {
                // a file used as a directory component
                let mut q = Self::parent(&n).to_string();
                while q != "/" {
                    if let Some(i) = self.names.get(&q) {
                        return Err(if self.inodes[*i].is_some() { ENOTDIR } else { ENOENT });
                    }
                    q = Self::parent(&q).to_string();
                }
                Err(ENOENT)
            }
        }
    }
    pub fn check_parent(&self, n: &str) -> Result<(), i32> {
        match self.names.get(Self::parent(n)) {
            Some(i) if self.inodes[*i].is_none() => Ok(()),
            Some(_) => Err(ENOTDIR),
            None => Err(self.lookup(Self::parent(n)).err().unwrap_or(ENOENT)),
        }
    }
    pub fn open(&mut self, p: &str, flags: i32) -> Result<i32, i32> {
        if p.is_empty() {
            return Err(ENOENT);
        }
        let n = self.norm(p);
        let acc = flags & 3;
        let (creat, excl, trunc, append, dirf) = (flags & 0o100 != 0, flags & 0o200 != 0, flags & 0o1000 != 0, flags & 0o2000 != 0, flags & 0o200000 != 0);
        let ino = match self.lookup(p) {
            Ok(i) => {
                if creat && excl {
                    return Err(EEXIST);
                }
                if self.inodes[i].is_none() && (acc != 0 || creat) {
                    return Err(EISDIR);
                }
                if dirf && self.inodes[i].is_some() {
                    return Err(ENOTDIR);
                }
                if trunc && acc != 0 {
                    self.inodes[i] = Some(Rc::new(vec![]));
                }
                i
            }
            Err(e) => {
                if !creat {
                    return Err(e);
                }
                self.check_parent(&n)?;
                let i = self.inodes.len();
                self.inodes.push(Some(Rc::new(vec![])));
                self.names.insert(n, i);
                i
            }
        };
        let fd = Fd { ino, pos: 0, read: acc != 1, write: acc != 0, append, dir: None };
        Ok(self.alloc_fd(fd))
    }
    pub fn alloc_fd(&mut self, fd: Fd) -> i32 {
        for i in 3..self.fds.len() {
            if self.fds[i].is_none() {
                self.fds[i] = Some(fd);
                return i as i32;
            }
        }
        self.fds.push(Some(fd));
        self.fds.len() as i32 - 1
    }
    pub fn fd(&mut self, i: i32) -> Result<&mut Fd, i32> {
        match self.fds.get_mut(i as usize) {
            Some(Some(f)) => Ok(f),
            _ => Err(EBADF),
        }
    }
    pub fn close_from(&mut self, n: usize) {
        if self.fds.len() > n {
            self.fds.truncate(n.max(3));
        }
    }
    pub fn write(&mut self, i: i32, data: &[B]) -> Result<usize, i32> {
        let f = self.fd(i)?.clone();
        if !f.write {
            return Err(EBADF);
        }
        let file = match &mut self.inodes[f.ino] {
            Some(r) => Rc::make_mut(r),
            None => return Err(EISDIR),
        };
        let pos = if f.append { file.len() } else { f.pos };
        if file.len() < pos {
            file.resize(pos, (0, 0, 0));
        }
        for (k, b) in data.iter().enumerate() {
            if pos + k < file.len() {
                file[pos + k] = *b
            } else {
                file.push(*b)
            }
        }
        self.fd(i)?.pos = pos + data.len();
        Ok(data.len())
    }
    pub fn read(&mut self, i: i32, n: usize) -> Result<Vec<B>, i32> {
        let f = self.fd(i)?.clone();
        if !f.read {
            return Err(EBADF);
        }
        let v = match &self.inodes[f.ino] {
            Some(file) => {
                let a = f.pos.min(file.len());
                let b = (f.pos + n).min(file.len());
                file[a..b].to_vec()
            }
            None => return Err(EISDIR),
        };
        self.fd(i)?.pos += v.len();
        Ok(v)
    }
    pub fn children(&self, n: &str) -> Vec<(String, bool, usize)> {
        let pre = if n == "/" { "/".to_string() } else { format!("{}/", n) };
        self.names
            .iter()
            .filter(|(k, _)| k.starts_with(&pre) && k.len() > pre.len() && !k[pre.len()..].contains('/'))
            .map(|(k, i)| (k[pre.len()..].to_string(), self.inodes[*i].is_none(), *i))
            .collect()
    }
    pub fn mkdir(&mut self, p: &str) -> Result<(), i32> {
        let n = self.norm(p);
        if self.names.contains_key(&n) {
            return Err(EEXIST);
        }
        self.check_parent(&n)?;
        self.add_dir(&n);
        Ok(())
    }
    pub fn unlink(&mut self, p: &str) -> Result<(), i32> {
        let i = self.lookup(p)?;
        if self.inodes[i].is_none() {
            return Err(EISDIR);
        }
        let n = self.norm(p);
        self.names.remove(&n);
        Ok(())
    }
    pub fn rmdir(&mut self, p: &str) -> Result<(), i32> {
        let i = self.lookup(p)?;
        if self.inodes[i].is_some() {
            return Err(ENOTDIR);
        }
        let n = self.norm(p);
        if !self.children(&n).is_empty() {
            return Err(ENOTEMPTY);
        }
        self.names.remove(&n);
        Ok(())
    }
    pub fn rename(&mut self, a: &str, b: &str) -> Result<(), i32> {
        let i = self.lookup(a)?;
        let (na, nb) = (self.norm(a), self.norm(b));
        self.check_parent(&nb)?;
        if self.inodes[i].is_none() {
            return Err(EINVAL);
        }
        if let Some(j) = self.names.get(&nb) {
            if self.inodes[*j].is_none() {
                return Err(EISDIR);
            }
        }
        self.names.remove(&na);
        self.names.insert(nb, i);
        Ok(())
    }
    pub fn put(&mut self, p: &str, data: Vec<B>) {
        let n = self.norm(p);
        let i = self.inodes.len();
        self.inodes.push(Some(Rc::new(data)));
        self.names.insert(n, i);
    }
}
