//! Abstract memory: a persistent map from objects to typed values, in
//! copy-on-write blocks so that forked states share what they do not change.
use crate::val::{ObjId, V};
use rustc_public::ty::Ty;
use std::rc::Rc;

const B: u32 = 4;
type Slot = (ObjId, (Ty, V));

#[derive(Clone, Default)]
pub struct Mem {
    /// (object number >> B, its objects in order)
    blocks: Vec<(u32, Rc<Vec<Slot>>)>,
}

impl Mem {
    pub fn new() -> Mem {
        Mem { blocks: vec![] }
    }
    fn block(&self, o: ObjId) -> Result<usize, usize> {
        self.blocks.binary_search_by_key(&(o >> B), |b| b.0)
    }
    pub fn get(&self, o: &ObjId) -> Option<&(Ty, V)> {
        let i = self.block(*o).ok()?;
        self.blocks[i].1.iter().find(|s| s.0 == *o).map(|s| &s.1)
    }
    pub fn contains_key(&self, o: &ObjId) -> bool {
        self.get(o).is_some()
    }
    pub fn get_mut(&mut self, o: &ObjId) -> Option<&mut (Ty, V)> {
        let i = self.block(*o).ok()?;
        let k = self.blocks[i].1.iter().position(|s| s.0 == *o)?;
        Some(&mut Rc::make_mut(&mut self.blocks[i].1)[k].1)
    }
    pub fn insert(&mut self, o: ObjId, x: (Ty, V)) {
        match self.block(o) {
            Ok(i) => {
                let b = Rc::make_mut(&mut self.blocks[i].1);
                match b.binary_search_by_key(&o, |s| s.0) {
                    Ok(k) => b[k].1 = x,
                    Err(k) => b.insert(k, (o, x)),
                }
            }
            Err(i) => self.blocks.insert(i, (o >> B, Rc::new(vec![(o, x)]))),
        }
    }
    pub fn remove(&mut self, o: &ObjId) -> Option<(Ty, V)> {
        let i = self.block(*o).ok()?;
        let k = self.blocks[i].1.iter().position(|s| s.0 == *o)?;
        if self.blocks[i].1.len() == 1 {
            let (_, b) = self.blocks.remove(i);
            return b.first().map(|s| s.1.clone());
        }
        Some(Rc::make_mut(&mut self.blocks[i].1).remove(k).1)
    }
    pub fn iter(&self) -> impl Iterator<Item = (&ObjId, &(Ty, V))> {
        self.blocks.iter().flat_map(|b| b.1.iter().map(|s| (&s.0, &s.1)))
    }
    pub fn iter_mut(&mut self) -> impl Iterator<Item = (ObjId, &mut (Ty, V))> {
        self.blocks.iter_mut().flat_map(|b| Rc::make_mut(&mut b.1).iter_mut().map(|s| (s.0, &mut s.1)))
    }
}

impl std::ops::Index<&ObjId> for Mem {
    type Output = (Ty, V);
    fn index(&self, o: &ObjId) -> &(Ty, V) {
        self.get(o).expect("object in memory")
    }
}
