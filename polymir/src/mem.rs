//! Byte-offset addressed abstract memory.

use crate::dom::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Aid(pub u32);
const HEAP: u32 = 1 << 31;
impl Aid {
    pub fn is_heap(self) -> bool {
        self.0 & HEAP != 0
    }
    pub fn ix(self) -> usize {
        (self.0 & !HEAP) as usize
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Ptr {
    pub a: Aid,
    pub off: i64,
}
impl Ptr {
    /// a stand-in for the numeric address, for address arithmetic that cancels out
    pub fn fake(self) -> i64 {
        ((self.a.0 as i64 + 1) << 31).wrapping_add(self.off)
    }
    pub fn add(self, n: i64) -> Ptr {
        Ptr { a: self.a, off: self.off + n }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Val {
    Int(u128),
    Ptr(Ptr),
    Fld(PolyId),
    Sym(SymId),
    /// value lost in a join (reading it is undecidable)
    Top,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Cell {
    pub off: u32,
    pub size: u32,
    pub v: Val,
}

#[derive(Clone, Debug)]
pub enum Raw {
    None,
    Bytes(Rc<Vec<u8>>),
}

#[derive(Clone, Debug)]
pub struct Alloc {
    pub size: u64,
    pub cells: Vec<Cell>,
    pub raw: Raw,
    /// index into the interpreter's table of special allocations (functions, vtables), or 0
    pub special: u32,
    pub kind: AKind,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum AKind {
    Stack,
    Heap,
    Const,
    Static(u32),
    Special,
    Dead,
}

impl Alloc {
    pub fn new(size: u64, kind: AKind) -> Alloc {
        Alloc { size, cells: Vec::new(), raw: Raw::None, special: 0, kind }
    }
    /// index of the first cell with off >= o
    fn lower(&self, o: u32) -> usize {
        if self.cells.len() <= 8 {
            let mut i = 0;
            while i < self.cells.len() && self.cells[i].off < o {
                i += 1;
            }
            i
        } else {
            self.cells.partition_point(|c| c.off < o)
        }
    }
    /// the cell covering byte o, if any
    fn covering(&self, o: u32) -> Option<usize> {
        let i = self.lower(o + 1);
        if i > 0 && self.cells[i - 1].off + self.cells[i - 1].size > o {
            Some(i - 1)
        } else {
            None
        }
    }
    pub fn get(&self, o: u32, size: u32) -> Result<Val, String> {
        let i = self.lower(o);
        if i < self.cells.len() && self.cells[i].off == o && self.cells[i].size == size {
            return Ok(self.cells[i].v);
        }
        // assemble from concrete bytes
        if size <= 16 {
            let mut x: u128 = 0;
            let mut all = true;
            for k in 0..size {
                match self.byte(o + k) {
                    Some(b) => x |= (b as u128) << (8 * k),
                    None => {
                        all = false;
                        break;
                    }
                }
            }
            if all {
                return Ok(Val::Int(x));
            }
        }
        match self.covering(o) {
            Some(c) => Err(format!(
                "read of {size} bytes at offset {o} does not match cell {}+{} {:?}",
                self.cells[c].off, self.cells[c].size, self.cells[c].v
            )),
            None => Err(format!("read of {size} uninitialised bytes at offset {o}")),
        }
    }
    pub fn byte(&self, o: u32) -> Option<u8> {
        match self.covering(o) {
            Some(i) => match self.cells[i].v {
                Val::Int(x) => {
                    let sh = 8 * (o - self.cells[i].off);
                    if sh >= 128 {
                        Some(0)
                    } else {
                        Some((x >> sh) as u8)
                    }
                }
                _ => None,
            },
            None => match &self.raw {
                Raw::Bytes(b) => b.get(o as usize).copied(),
                _ => None,
            },
        }
    }
    /// make [o, o+size) free of cells, splitting concrete ones; returns insertion index
    fn clear(&mut self, o: u32, size: u32) -> usize {
        let end = o + size;
        let mut i = self.lower(o);
        if i > 0 && self.cells[i - 1].off + self.cells[i - 1].size > o {
            i -= 1;
        }
        // fast path: nothing there
        if i == self.cells.len() || self.cells[i].off >= end {
            return i;
        }
        let mut keep: Vec<Cell> = Vec::new();
        let mut j = i;
        while j < self.cells.len() && self.cells[j].off < end {
            let c = self.cells[j];
            if c.off < o {
                if let Val::Int(x) = c.v {
                    let n = o - c.off;
                    keep.push(Cell { off: c.off, size: n, v: Val::Int(x & mask(8 * n)) });
                } else {
                    keep.push(Cell { off: c.off, size: o - c.off, v: Val::Top });
                }
            }
            if c.off + c.size > end {
                let n = c.off + c.size - end;
                let v = match c.v {
                    Val::Int(x) => Val::Int(if 8 * (end - c.off) >= 128 { 0 } else { x >> (8 * (end - c.off)) }),
                    _ => Val::Top,
                };
                keep.push(Cell { off: end, size: n, v });
            }
            j += 1;
        }
        let before = keep.iter().filter(|c| c.off < o).count();
        if keep.is_empty() {
            if j == i + 1 && i + 1 == self.cells.len() {
                self.cells.pop();
            } else {
                self.cells.drain(i..j);
            }
        } else {
            self.cells.splice(i..j, keep);
        }
        i + before
    }
    pub fn set(&mut self, o: u32, size: u32, v: Val) {
        // exact overwrite
        let i = self.lower(o);
        if i < self.cells.len() && self.cells[i].off == o && self.cells[i].size == size {
            if i == 0 || self.cells[i - 1].off + self.cells[i - 1].size <= o {
                self.cells[i].v = v;
                return;
            }
        }
        let i = self.clear(o, size);
        self.cells.insert(i, Cell { off: o, size, v });
    }
    /// the contents of [o, o+size) as cells relative to o
    pub fn slice(&self, o: u32, size: u32) -> Vec<Cell> {
        let end = o + size;
        let mut out = Vec::new();
        let mut i = self.lower(o);
        if i > 0 && self.cells[i - 1].off + self.cells[i - 1].size > o {
            i -= 1;
        }
        let mut pos = o;
        let raw = matches!(self.raw, Raw::Bytes(_));
        while i < self.cells.len() && self.cells[i].off < end {
            let c = self.cells[i];
            if raw && c.off > pos {
                self.raw_cells(pos, c.off, o, &mut out);
            }
            let s = c.off.max(o);
            let e = (c.off + c.size).min(end);
            if s == c.off && e == c.off + c.size {
                out.push(Cell { off: c.off - o, size: c.size, v: c.v });
            } else {
                let v = match c.v {
                    Val::Int(x) => {
                        let sh = 8 * (s - c.off);
                        Val::Int((if sh >= 128 { 0 } else { x >> sh }) & mask(8 * (e - s)))
                    }
                    _ => Val::Top,
                };
                out.push(Cell { off: s - o, size: e - s, v });
            }
            pos = e;
            i += 1;
        }
        if raw && pos < end {
            self.raw_cells(pos, end, o, &mut out);
        }
        out
    }
    fn raw_cells(&self, from: u32, to: u32, base: u32, out: &mut Vec<Cell>) {
        if let Raw::Bytes(b) = &self.raw {
            let mut p = from;
            while p < to {
                let al = if p % 8 == 0 { 8 } else { 8 - p % 8 };
                let n = al.min(to - p);
                let mut x = 0u128;
                for k in 0..n {
                    x |= (*b.get((p + k) as usize).unwrap_or(&0) as u128) << (8 * k);
                }
                out.push(Cell { off: p - base, size: n, v: Val::Int(x) });
                p += n;
            }
        }
    }
    pub fn paste(&mut self, o: u32, size: u32, cells: &[Cell]) {
        if size == 0 {
            return;
        }
        if cells.len() == 1 && cells[0].off == 0 && cells[0].size == size {
            self.set(o, size, cells[0].v);
            return;
        }
        let i = self.clear(o, size);
        if i == self.cells.len() {
            self.cells.extend(cells.iter().map(|c| Cell { off: c.off + o, ..*c }));
        } else {
            self.cells.splice(i..i, cells.iter().map(|c| Cell { off: c.off + o, ..*c }));
        }
    }
}

#[derive(Clone, Default)]
pub struct Mem {
    pub stack: Vec<Alloc>,
    pub heap: Vec<Option<Rc<Alloc>>>,
}

impl Mem {
    pub fn new_heap(&mut self, next: &mut u32, size: u64, kind: AKind) -> Aid {
        let id = *next;
        *next += 1;
        self.put_heap(id, Rc::new(Alloc::new(size, kind)));
        Aid(HEAP | id)
    }
    pub fn put_heap(&mut self, id: u32, a: Rc<Alloc>) {
        let id = id as usize;
        if self.heap.len() <= id {
            self.heap.resize(id + 1, None);
        }
        self.heap[id] = Some(a);
    }
    pub fn new_stack(&mut self, size: u64) -> Aid {
        self.stack.push(Alloc::new(size, AKind::Stack));
        Aid(self.stack.len() as u32 - 1)
    }
    pub fn get(&self, a: Aid) -> Option<&Alloc> {
        if a.is_heap() {
            self.heap.get(a.ix()).and_then(|x| x.as_deref())
        } else {
            self.stack.get(a.ix())
        }
    }
    pub fn get_mut(&mut self, a: Aid) -> &mut Alloc {
        if a.is_heap() {
            Rc::make_mut(self.heap[a.ix()].as_mut().unwrap())
        } else {
            &mut self.stack[a.ix()]
        }
    }
    fn check(&self, p: Ptr, size: u64) -> Result<(), String> {
        let Some(al) = self.get(p.a) else { return Err("access through a dangling pointer".into()) };
        if al.kind == AKind::Dead {
            return Err("access to freed memory".into());
        }
        if p.off < 0 || p.off as u64 + size > al.size {
            return Err(format!("access of {size} bytes at offset {} of an allocation of {} bytes", p.off, al.size));
        }
        Ok(())
    }
    pub fn read(&self, p: Ptr, size: u64) -> Result<Val, String> {
        self.check(p, size)?;
        self.get(p.a).unwrap().get(p.off as u32, size as u32)
    }
    pub fn write(&mut self, p: Ptr, size: u64, v: Val) -> Result<(), String> {
        self.check(p, size)?;
        self.get_mut(p.a).set(p.off as u32, size as u32, v);
        Ok(())
    }
    pub fn read_cells(&self, p: Ptr, size: u64) -> Result<Vec<Cell>, String> {
        if size == 0 {
            return Ok(vec![]);
        }
        self.check(p, size)?;
        Ok(self.get(p.a).unwrap().slice(p.off as u32, size as u32))
    }
    pub fn write_cells(&mut self, p: Ptr, size: u64, cells: &[Cell]) -> Result<(), String> {
        if size == 0 {
            return Ok(());
        }
        self.check(p, size)?;
        self.get_mut(p.a).paste(p.off as u32, size as u32, cells);
        Ok(())
    }
    pub fn copy(&mut self, src: Ptr, dst: Ptr, size: u64) -> Result<(), String> {
        if size == 0 || src == dst {
            return Ok(());
        }
        // scalar fast path
        if size <= 32 {
            self.check(src, size)?;
            let al = self.get(src.a).unwrap();
            let i = al.lower(src.off as u32);
            if i < al.cells.len() && al.cells[i].off == src.off as u32 && al.cells[i].size == size as u32 {
                let v = al.cells[i].v;
                return self.write(dst, size, v);
            }
        }
        let c = self.read_cells(src, size)?;
        self.write_cells(dst, size, &c)
    }
}
