"""Write the probe crate: every built-in method and object type declared in the repository,
with stub bodies, so that the compiler shows what the attribute macros make of each.

usage: gen.py REPO OUT/src/lib.rs DECLARATIONS.json
"""
import json
import os
import re
import sys

REPO, OUT = sys.argv[1], sys.argv[2]
SRC = os.path.join(REPO, 'monoruby', 'src')


def strip(s):
    """Blank out comments and string contents."""
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if s.startswith('//', i):
            j = s.find('\n', i)
            i = n if j < 0 else j
        elif s.startswith('/*', i):
            d, i = 1, i + 2
            while i < n and d:
                if s.startswith('/*', i):
                    d, i = d + 1, i + 2
                elif s.startswith('*/', i):
                    d, i = d - 1, i + 2
                else:
                    i += 1
        elif c == '"' or (c == 'r' and re.match(r'r#*"', s[i:i + 8]) and not (i and (s[i - 1].isalnum() or s[i - 1] == '_'))):
            m = re.match(r'r(#*)"', s[i:i + 8]) if c == 'r' else None
            if m:
                j = s.find('"' + m.group(1), i + m.end())
                i = j + 1 + len(m.group(1)) if j >= 0 else n
            else:
                j = i + 1
                while j < n and s[j] != '"':
                    j += 2 if s[j] == '\\' else 1
                i = j + 1
            out.append('""')
        elif c == "'" and re.match(r"'(\\.[^']*|[^'\\])'", s[i:i + 12]):
            i += re.match(r"'(\\.[^']*|[^'\\])'", s[i:i + 12]).end()
            out.append("' '")
        else:
            out.append(c)
            i += 1
    return ''.join(out)


ATTRS = r'(?:\s*#\[[^\]]*\])*'
builtins, objects, kinds = {}, [], []
for d, ds, fs in os.walk(SRC):
    ds.sort()
    for fn in sorted(fs):
        if not fn.endswith('.rs'):
            continue
        raw = open(os.path.join(d, fn), errors='replace').read()
        if 'monoruby_builtin' not in raw and 'monoruby_object' not in raw and 'enum MonorubyErrKind' not in raw:
            continue
        s = strip(raw)
        rel = os.path.relpath(os.path.join(d, fn), SRC)
        for m in re.finditer(r'#\[\s*monoruby_builtin\s*(\([^)]*\))?\s*\]' + ATTRS +
                             r'\s*(?:pub\s*(?:\([^)]*\))?\s*)?(?:unsafe\s+)?fn\s+((?:r#)?\w+)', s):
            builtins.setdefault(rel, {})[m.group(2)] = m.group(1) or ''
        for m in re.finditer(r'#\[\s*monoruby_object\s*(\([^)]*\))?\s*\]' + ATTRS +
                             r'\s*(?:pub\s*(?:\([^)]*\))?\s*)?struct\s+(\w+)', s):
            objects.append((m.group(2), m.group(1) or '', rel))
        m = re.search(r'enum\s+MonorubyErrKind\s*\{', s)
        if m:
            i, depth = m.end(), 1
            while depth:
                depth += {'{': 1, '}': -1}.get(s[i], 0)
                i += 1
            body = s[m.end():i - 1]
            for v in re.findall(r'(\w+)\s*(\((?:[^()]|\([^()]*\))*\)|\{[^}]*\})?\s*(?:,|$)', body):
                kinds.append(v)

o = ['#![allow(unused, dead_code, non_snake_case, improper_ctypes_definitions)]']
o.append('''use monoruby_attr::{monoruby_builtin, monoruby_object};
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct IdentId(u32);
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct FuncId(u32);
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct ClassId(u32);
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub struct BytecodePtr(u64);
pub type PathBuf = std::path::PathBuf;
#[derive(Debug, Clone, Copy)] pub struct Lfp(u64);
impl PartialEq for Lfp { fn eq(&self, other: &Self) -> bool { unimplemented!() } }
#[derive(Debug, Clone, Copy, PartialEq)] pub struct Value(u64);
#[derive(Debug)] pub struct RValue { x: u64 }
#[derive(Debug)] pub struct MonorubyErr { x: u64 }
pub struct Executor { x: u64 }
pub struct Globals { x: u64 }
pub type Result<T> = std::result::Result<T, MonorubyErr>;
impl Executor {
    pub fn set_error(&mut self, err: MonorubyErr) { unimplemented!() }
    pub fn take_error(&mut self) -> MonorubyErr { unimplemented!() }
    pub fn take_ex_obj(&mut self, globals: &mut Globals) -> Value { unimplemented!() }
    pub fn clear_error(&mut self) { unimplemented!() }
    pub fn exception(&self) -> Option<&MonorubyErr> { unimplemented!() }
    pub fn cfp(&self) -> u64 { unimplemented!() }
}
impl Lfp {
    pub fn func_id(self) -> FuncId { unimplemented!() }
    pub fn self_val(self) -> Value { unimplemented!() }
    pub fn outer(self) -> Option<Lfp> { unimplemented!() }
    pub fn arg(self, n: usize) -> Value { unimplemented!() }
    pub fn try_arg(self, n: usize) -> Option<Value> { unimplemented!() }
    pub fn outermost(self) -> (Lfp, usize) { unimplemented!() }
}
impl MonorubyErr {
    pub fn kind(&self) -> &MonorubyErrKind { unimplemented!() }
    pub fn is_signal_interrupt(&self) -> bool { unimplemented!() }
    pub fn is_would_block_interrupt(&self) -> bool { unimplemented!() }
}
impl Value {
    pub fn nil() -> Value { unimplemented!() }
    pub fn is_nil(self) -> bool { unimplemented!() }
    pub fn id(self) -> u64 { unimplemented!() }
    pub fn is_packed_value(&self) -> bool { unimplemented!() }
    pub fn is_frozen(&self) -> bool { unimplemented!() }
    pub fn rvalue(&self) -> &RValue { unimplemented!() }
    pub fn rvalue_mut(&mut self) -> &mut RValue { unimplemented!() }
    pub fn write_barrier(&mut self, child: Value) { unimplemented!() }
    pub fn write_barrier_bulk(&mut self) { unimplemented!() }
    pub fn mark(&self, alloc: &mut alloc::Allocator<RValue>) { unimplemented!() }
}
pub mod alloc {
    pub struct Allocator<T> { x: Option<T> }
    pub trait GC<T> { fn mark(&self, alloc: &mut Allocator<T>); }
}
pub mod builtins { pub mod kernel {
    use crate::*;
    pub fn push_builtin_trace(vm: &Executor, globals: &Globals, err: &mut MonorubyErr, fid: FuncId) { unimplemented!() }
} }''')
KNOWN = {'Value', 'Lfp', 'FuncId', 'ClassId', 'IdentId', 'Option', 'PathBuf', 'i64', 'u64', 'usize', 'bool', 'String',
         'i32', 'u32', 'Box', 'Vec', 'Rc', 'name', 'receiver'}
vs, unknown = [], set()
for name, payload in kinds:
    if payload.startswith('('):
        unknown |= set(re.findall(r'\b[A-Z]\w*', payload)) - KNOWN
    elif payload.startswith('{'):
        unknown |= set(re.findall(r'\b[A-Z]\w*', payload)) - KNOWN
    vs.append(name + payload)
for u in sorted(unknown):
    o.append('#[derive(Debug)] pub struct %s(u32);' % u)
o.append('#[derive(Debug)] pub enum MonorubyErrKind { %s }' % ', '.join(vs))
acc = []
for name, attr, rel in objects:
    low = name.lower()
    acc.append('    pub unsafe fn as_%s_inner(&self) -> &%sInner { unimplemented!() }\n'
               '    pub unsafe fn as_%s_inner_mut(&mut self) -> &mut %sInner { unimplemented!() }' % (low, name, low, name))
    o.append('pub struct %sInner { x: u64 }\n#[monoruby_object%s]\npub struct %s(Value);' % (name, attr, name))
o.append('impl Value {\n%s\n}' % '\n'.join(acc))
for rel, names in sorted(builtins.items()):
    mod = 'm_' + re.sub(r'\W', '_', rel[:-3])
    o.append('pub mod %s { use crate::*;' % mod)
    for n, attr in names.items():
        o.append('#[monoruby_builtin%s] fn %s(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) '
                 '-> Result<Value> { unimplemented!() }' % (attr, n))
    o.append('}')
os.makedirs(os.path.dirname(OUT), exist_ok=True)
open(OUT, 'w').write('\n'.join(o) + '\n')
json.dump({'objects': [[n, a.strip('() ') == 'write_barrier', 'monoruby/src/' + r] for n, a, r in objects],
           'builtins': sorted('m_%s::%s' % (re.sub(r'\W', '_', r[:-3]), n) for r in builtins for n in builtins[r])},
          open(sys.argv[3], 'w'))
