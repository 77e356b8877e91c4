//! A simulated disk: one directory, written back only by fsync.  A crash
//! keeps what was synced, and of the rest an arbitrary part: unsynced data
//! may be lost, cut or full of zeroes, an unsynced rename may or may not have
//! happened.

use crate::engine::count;
use crate::rng::Rng;
use std::collections::BTreeMap;

#[derive(Clone, Default)]
struct Inode {
    data: Vec<u8>,
    /// bytes known to be on the platter
    synced: usize,
}

#[derive(Clone, Default)]
pub struct Disk {
    inodes: Vec<Inode>,
    /// as running programs see it
    dir: BTreeMap<String, usize>,
    /// as it is on the platter
    dir_synced: BTreeMap<String, usize>,
}

impl Disk {
    pub fn create(&mut self, name: &str) -> usize {
        self.inodes.push(Inode::default());
        let n = self.inodes.len() - 1;
        self.dir.insert(name.into(), n);
        n
    }
    pub fn append(&mut self, ino: usize, b: &[u8]) {
        self.inodes[ino].data.extend_from_slice(b);
    }
    pub fn fsync(&mut self, ino: usize) {
        let i = &mut self.inodes[ino];
        i.synced = i.data.len();
    }
    pub fn rename(&mut self, from: &str, to: &str) {
        if let Some(i) = self.dir.remove(from) {
            self.dir.insert(to.into(), i);
        }
    }
    pub fn remove(&mut self, name: &str) {
        self.dir.remove(name);
    }
    pub fn fsync_dir(&mut self) {
        self.dir_synced = self.dir.clone();
    }
    pub fn read(&self, name: &str) -> Option<&[u8]> {
        self.dir.get(name).map(|i| &self.inodes[*i].data[..])
    }
    /// power loss
    pub fn crash(&mut self, r: &mut Rng) {
        count("fault:crash", 1);
        if self.dir != self.dir_synced {
            if r.pct(50) {
                count("fault:unsynced rename lost", 1);
                self.dir = self.dir_synced.clone();
            } else {
                count("fault:unsynced rename kept", 1);
                self.dir_synced = self.dir.clone();
            }
        }
        for i in self.inodes.iter_mut() {
            if i.synced == i.data.len() {
                continue;
            }
            match r.below(3) {
                0 => {
                    count("fault:unsynced data lost", 1);
                    i.data.truncate(i.synced);
                }
                1 => {
                    count("fault:unsynced data torn", 1);
                    let k = r.range(i.synced, i.data.len());
                    i.data.truncate(k);
                }
                _ => {
                    count("fault:unsynced data zeroed", 1);
                    let k = r.range(i.synced, i.data.len());
                    i.data[k..].fill(0);
                }
            }
            i.synced = i.data.len();
        }
    }
}
