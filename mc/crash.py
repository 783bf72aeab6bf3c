# -*- coding: utf-8 -*-
"""
Crash exploration of code that writes into a folder.

record()   runs a program under strace and extracts every change it makes to a folder
states()   every folder content a kill can leave behind: all prefixes of the sequence
           of changes and, for every write, all prefixes of the data written
inject()   runs the program again with a fault or a kill at the n-th call
"""
import json
import os
import re
import shutil
import subprocess

CALLS = ('open,openat,creat,write,pwrite64,writev,lseek,ftruncate,truncate,rename,renameat,renameat2,'
         'unlink,unlinkat,rmdir,mkdir,mkdirat,link,linkat,symlink,symlinkat,copy_file_range,sendfile,'
         'dup,dup2,dup3,pwritev,fallocate')
LINE = re.compile(r'^(\d+)\s+(?:\d+\.\d+\s+)?(\w+)\((.*)\)\s+=\s+(-?\d+|\?)(.*)$', re.S)


class Unsupported(Exception):
    pass


def _unescape(s):
    return bytes(int(x, 16) for x in s.split('\\x')[1:])


def _args(s):
    """ split the printed arguments of a call """
    res, cur, q, depth = [], '', False, 0
    for ch in s:
        if ch == '"':
            q = not q
        elif not q:
            if ch in '[{(<':
                depth += 1
            elif ch in ']})>':
                depth -= 1
            elif ch == ',' and not depth:
                res.append(cur.strip())
                cur = ''
                continue
        cur += ch
    res.append(cur.strip())
    return res


def _str(a):
    m = re.match(r'^"(.*)"(\.\.\.)?$', a, re.S)
    if not m or m.group(2):
        return None
    return _unescape(m.group(1))


def _fd(a):
    """ '5<\\x2f...>' -> (5, path) """
    m = re.match(r'^(-?\w+)(?:<(.*)>)?$', a, re.S)
    p = None
    if m.group(2):
        g = m.group(2)
        p = _unescape(g).decode('utf8', 'replace') if '\\x' in g else g
    return m.group(1), p


def _path(args, k):
    """ path argument k, after an optional directory descriptor """
    p = _str(args[k])
    if p is None:
        return None
    p = p.decode('utf8', 'surrogateescape')
    if not p.startswith('/') and k > 0 and not args[k - 1].startswith('"'):
        d = _fd(args[k - 1])[1]
        if d:
            p = os.path.join(d, p)
    return p


def parse_log(text, root, cwd='/'):
    """
    -> [(op, args, index of the call among the calls of its name, name)] for changes inside root
    """
    root = root.rstrip('/')
    pending = {}
    ops = []
    fds = {}
    ordinal = {}

    def inside(p):
        if p is None:
            return None
        p = os.path.normpath(os.path.join(cwd, p))
        if p == root:
            return ''
        if p.startswith(root + '/'):
            return p[len(root) + 1:]
        return None
    for line in text.split('\n'):
        if not line:
            continue
        m = re.match(r'^(\d+)\s+(.*) <unfinished \.\.\.>$', line)
        if m:
            pending[m.group(1)] = m.group(2)
            continue
        m = re.match(r'^(\d+)\s+<\.\.\. \w+ resumed>(.*)$', line)
        if m:
            line = m.group(1) + ' ' + pending.pop(m.group(1)) + m.group(2)
        m = LINE.match(line)
        if not m:
            continue
        pid, call, argtext, ret, tail = m.groups()
        ordinal[call] = ordinal.get(call, 0) + 1
        n = (ordinal[call], call)
        if ret == '?' or int(ret) < 0:
            continue
        a = _args(argtext)
        ret = int(ret)
        if call in ('open', 'openat', 'creat'):
            k = 1 if call == 'openat' else 0
            rel = inside(_path(a, k))
            fd = str(ret)
            fds.pop(fd, None)
            if rel is None:
                continue
            flags = a[k + 1] if call != 'creat' else 'O_WRONLY|O_CREAT|O_TRUNC'
            if 'O_WRONLY' not in flags and 'O_RDWR' not in flags:
                continue
            fds[fd] = [rel, 0, 'O_APPEND' in flags]
            if 'O_TRUNC' in flags:
                ops.append(('create', (rel, True), n))
            elif 'O_CREAT' in flags:
                ops.append(('create', (rel, False), n))
        elif call in ('write', 'pwrite64', 'writev'):
            fd, p = _fd(a[0])
            if inside(p) is None or fd not in fds:
                continue
            st = fds[fd]
            if call == 'writev':
                data = b''.join(_unescape(x) for x in re.findall(r'iov_base="([^"]*)"', a[1]))
            else:
                data = _str(a[1])
            data = data[:ret]
            if call == 'pwrite64':
                off = int(a[3])
            else:
                off = None if st[2] else st[1]
                st[1] += ret
            ops.append(('write', (st[0], off, data), n))
        elif call == 'lseek':
            fd, p = _fd(a[0])
            if fd in fds:
                fds[fd][1] = ret
        elif call in ('ftruncate', 'truncate'):
            p = _fd(a[0])[1] if call == 'ftruncate' else _path(a, 0)
            rel = inside(p)
            if rel is not None:
                ops.append(('truncate', (rel, int(a[1])), n))
        elif call in ('rename', 'renameat', 'renameat2'):
            k = (0, 1) if call == 'rename' else (1, 3)
            src, dst = inside(_path(a, k[0])), inside(_path(a, k[1]))
            if src is None and dst is None:
                continue
            if src is None or dst is None:
                raise Unsupported('rename across the folder border: ' + line[:200])
            for st in fds.values():
                if st[0] == src:
                    st[0] = dst
            ops.append(('rename', (src, dst), n))
        elif call in ('unlink', 'unlinkat', 'rmdir'):
            rel = inside(_path(a, 1 if call == 'unlinkat' else 0))
            if rel is not None:
                ops.append(('unlink', (rel,), n))
        elif call in ('mkdir', 'mkdirat'):
            rel = inside(_path(a, 1 if call == 'mkdirat' else 0))
            if rel is not None:
                ops.append(('mkdir', (rel,), n))
        else:
            if root.encode() in argtext.encode() or any(
                    inside(_fd(x)[1]) is not None for x in a if re.match(r'^\d+<', x)):
                if call in ('dup', 'dup2', 'dup3'):
                    continue
                raise Unsupported(line[:200])
    return ops


def strace(argv, env, logfile, extra=()):
    cmd = ['strace', '-f', '-y', '-xx', '-s', '100000000', '-o', logfile, '-e', 'trace=' + CALLS]
    cmd += list(extra)
    return subprocess.call(cmd + list(argv), env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def record(argv, env, root, logfile):
    rc = strace(argv, env, logfile)
    with open(logfile, encoding='latin1') as f:
        text = f.read()
    os.unlink(logfile)
    return rc, parse_log(text, root)


def inject(argv, env, logfile, call, n, what):
    """ what: 'error=ENOSPC', 'signal=SIGKILL', ... at the n-th call """
    rc = strace(argv, env, logfile, ['-e', 'inject=%s:%s:when=%d' % (call, what, n)])
    os.unlink(logfile)
    return rc


def snapshot(root):
    """ folder content: {relative path: bytes, or None for a folder}; None if it does not exist """
    if not os.path.isdir(root):
        return None
    res = {}
    for d, dirs, files in os.walk(root):
        for x in dirs:
            res[os.path.relpath(os.path.join(d, x), root)] = None
        for x in files:
            p = os.path.join(d, x)
            with open(p, 'rb') as f:
                res[os.path.relpath(p, root)] = f.read()
    return res


def apply(state, op):
    """ apply one change to a snapshot (returns a new one) """
    kind, a = op[0], op[1]
    st = dict(state) if state is not None else None
    if kind == 'mkdir':
        if a[0] == '':
            return {}
        st[a[0]] = None
        return st
    if kind == 'create':
        if a[1] or a[0] not in st:
            st[a[0]] = b''
    elif kind == 'write':
        rel, off, data = a
        old = st.get(rel, b'')
        if off is None:
            off = len(old)
        if len(old) < off:
            old = old + b'\0' * (off - len(old))
        st[rel] = old[:off] + data + old[off + len(data):]
    elif kind == 'truncate':
        old = st.get(a[0], b'')
        st[a[0]] = old[:a[1]] + b'\0' * (a[1] - len(old))
    elif kind == 'rename':
        st[a[1]] = st.pop(a[0])
        for k in [k for k in st if k.startswith(a[0] + '/')]:
            st[a[1] + k[len(a[0]):]] = st.pop(k)
    elif kind == 'unlink':
        if a[0] == '':
            return None
        st.pop(a[0], None)
    return st


def states(initial, ops, torn=True):
    """ yields (label, snapshot): after every prefix of ops, and inside every write """
    st = initial
    yield [0, 0], st
    for i, op in enumerate(ops):
        if torn and op[0] == 'write':
            rel, off, data = op[1]
            for k in range(1, len(data)):
                yield [i, k], apply(st, ('write', (rel, off, data[:k])))
        st = apply(st, op)
        yield [i + 1, 0], st


def materialize(state, root):
    """ make the folder root have exactly that content """
    if os.path.isdir(root):
        shutil.rmtree(root)
    if state is None:
        return
    os.mkdir(root)
    for k in sorted(state):
        p = os.path.join(root, k)
        if state[k] is None:
            os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(state[k])


class Folder(object):
    """ a folder whose content is switched between snapshots """

    def __init__(self, root):
        self.root = root
        self.cur = None
        materialize(None, root)

    def set(self, state):
        cur = self.cur
        if cur is None or state is None or any(v is None for v in list(cur.values()) + list(state.values())):
            materialize(state, self.root)
        else:
            for k in cur:
                if k not in state:
                    os.unlink(os.path.join(self.root, k))
            for k, v in state.items():
                if k not in cur or cur[k] is not v and cur[k] != v:
                    with open(os.path.join(self.root, k), 'wb') as f:
                        f.write(v)
        self.cur = state


def describe(ops):
    res = []
    for kind, a, n in ops:
        if kind == 'write':
            res.append('write %s +%d' % (a[0], len(a[2])))
        else:
            res.append(kind + ' ' + ' '.join(map(str, a)))
    return res
