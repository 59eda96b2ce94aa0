"""P20: the command-line tool against a model in Python (own BLAKE2b from hashlib,
own tree, proofs, verifier and argument parser).  Every invocation is a process of
the ASan+UBSan build, confined to the scratch directory."""
import fcntl, hashlib, os, random, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
import build

ZERO = bytes(32)


def H(b):
    return hashlib.blake2b(b, digest_size=32).digest()


def bit(k, i):
    return (k[i >> 3] >> (7 - (i & 7))) & 1


def lcp(a, b):
    for i in range(256):
        if bit(a, i) != bit(b, i):
            return i
    return 256


def bits(key, depth, n):
    o = bytearray((n + 7) // 8)
    for i in range(n):
        if bit(key, depth + i):
            o[i >> 3] |= 1 << (7 - (i & 7))
    return bytes(o)


class Tree:
    def __init__(self, kv):
        self.kv = dict(kv)
        self.top = self.make(sorted(kv), 0) if kv else None
        self.root = self.top[0] if kv else ZERO

    # (hash, depth, None, key) or (hash, depth, prefix length, key, left, right)
    def make(self, ks, depth):
        if len(ks) == 1:
            return (H(b'\0' + ks[0] + H(self.kv[ks[0]])), depth, None, ks[0])
        c = lcp(ks[0], ks[-1])
        i = next(i for i, k in enumerate(ks) if bit(k, c))
        l, r = self.make(ks[:i], c + 1), self.make(ks[i:], c + 1)
        return (self.inode(bits(ks[0], depth, c - depth), c - depth, l[0], r[0]), depth, c - depth, ks[0], l, r)

    @staticmethod
    def inode(pb, n, l, r):
        if n == 0:
            return H(b'\1' + l + r)
        return H(b'\2' + n.to_bytes(2, 'little') + pb + l + r)

    def prove(self, key):
        nodes, n = [], self.top
        if n is None:
            return self.enc(0, 0, [], b'')
        while True:
            if n[2] is None:
                if n[3] == key:
                    v = self.kv[key]
                    return self.enc(3, n[1], nodes, len(v).to_bytes(2, 'little') + v)
                return self.enc(2, n[1], nodes, n[3] + H(self.kv[n[3]]))
            if lcp(n[3], key) < n[1] + n[2]:
                return self.enc(1, n[1], nodes, self.pb(n[3], n[1], n[2]) + n[4][0] + n[5][0])
            b = bit(key, n[1] + n[2])
            nodes.append((n[3], n[1], n[2], n[4 if b else 5][0]))
            n = n[5 if b else 4]

    @staticmethod
    def pb(key, depth, n):
        return (bytes([0x80 | n >> 8]) if n >= 0x80 else b'') + bytes([n & 255]) + bits(key, depth, n)

    def enc(self, typ, depth, nodes, tail):
        bm = bytearray((len(nodes) + 7) // 8)
        body = b''
        for i, (k, d, n, h) in enumerate(nodes):
            if n:
                bm[i // 8] |= 1 << (7 - (i & 7))
                body += self.pb(k, d, n)
            body += h
        return (typ << 14 | depth).to_bytes(2, 'little') + len(nodes).to_bytes(2, 'little') + bytes(bm) + body + tail


class Bad(Exception):
    pass


def verify(p, key, root):
    """-> value or None; raises Bad"""
    pos = 0

    def take(n):
        nonlocal pos
        if pos + n > len(p):
            raise Bad
        pos += n
        return p[pos - n:pos]

    def pbits():
        a = take(1)[0]
        if a & 0x80:
            a = (a & 0x7f) << 8 | take(1)[0]
            if a < 0x80:
                raise Bad
        if a == 0 or a > 256:
            raise Bad
        return a, take((a + 7) // 8)

    def has(pb, n, depth):
        return depth + n <= 256 and all(bit(pb, i) == bit(key, depth + i) for i in range(n))
    f = int.from_bytes(take(2), 'little')
    cnt = int.from_bytes(take(2), 'little')
    typ, depth = f >> 14, f & 0x3fff
    if depth > 256 or cnt > 256:
        raise Bad
    bm = take((cnt + 7) // 8)
    nodes = []
    for i in range(cnt):
        n, pb = pbits() if bm[i // 8] >> (7 - (i & 7)) & 1 else (0, b'')
        nodes.append((n, pb, take(32)))
    value = None
    if typ == 0:
        nxt = ZERO
    elif typ == 1:
        n, pb = pbits()
        l, r = take(32), take(32)
    elif typ == 2:
        k, vh = take(32), take(32)
    else:
        s = int.from_bytes(take(2), 'little')
        if s > 1023:
            raise Bad
        value = take(s)
    if pos != len(p):
        raise Bad
    if typ == 1:
        if has(pb, n, depth):
            raise Bad
        nxt = Tree.inode(mask(pb, n), n, l, r)
        if mask(pb, n) != pb:
            nxt = Tree.inode(pb, n, l, r)
    elif typ == 2:
        if k == key:
            raise Bad
        nxt = H(b'\0' + k + vh)
    elif typ == 3:
        nxt = H(b'\0' + key + H(value))
    for n, pb, h in reversed(nodes):
        if depth < n + 1:
            raise Bad
        depth -= 1
        nxt = Tree.inode(pb, n, h, nxt) if bit(key, depth) else Tree.inode(pb, n, nxt, h)
        depth -= n
        if not has(pb, n, depth):
            raise Bad
    if depth or nxt != root:
        raise Bad
    return value


def mask(pb, n):
    if n % 8 == 0:
        return pb
    return pb[:-1] + bytes([pb[-1] & (0xff << (8 - n % 8)) & 0xff])


ACTIONS = ['create', 'destroy', 'info', 'root', 'get', 'insert', 'remove', 'list', 'prove', 'verify']


def unhex(b):
    if len(b) % 2:
        return None
    try:
        if any(c not in b'0123456789abcdefABCDEF' for c in b):
            return None
        return bytes.fromhex(b.decode('ascii'))
    except (ValueError, UnicodeDecodeError):
        return None


def parse(args, env):
    """-> ('bad',), ('help',) or (action, path, root, key, value or proof)"""
    path = root = None
    hashed = False
    pos = []
    it = iter(args)
    for a in it:
        if a in (b'--path', b'-p'):
            path = next(it, None)
            if path is None:
                return ('bad',)
        elif a in (b'--root', b'-r'):
            x = next(it, None)
            root = None if x is None else unhex(x)
            if root is None or len(root) != 32:
                return ('bad',)
        elif a in (b'--hash', b'-H'):
            hashed = True
        elif a in (b'--help', b'-h'):
            return ('help',)
        elif a[:1] == b'-':
            return ('bad',)
        else:
            pos.append(a)
            if len(pos) > 32:
                return ('bad',)
    if path is None:
        path = env.get('URKEL_PATH', '.').encode()
    if not pos:
        return ('usage',)
    act = pos[0].decode('latin1')
    if act not in ACTIONS:
        return ('bad',)
    key = arg = None
    if act in ('get', 'insert', 'remove', 'prove', 'verify'):
        if len(pos) < 2:
            return ('bad',)
        key = H(pos[1]) if hashed else unhex(pos[1])
        if key is None or len(key) != 32:
            return ('bad',)
    if act in ('insert', 'verify'):
        if len(pos) < 3:
            return ('bad',)
        arg = unhex(pos[2])
        if arg is None or (act == 'insert' and len(arg) > 1023):
            return ('bad',)
        if act == 'verify' and root is None:
            return ('bad',)
    return (act, path, root, key, arg)


class Fail(Exception):
    def __init__(self, key, detail):
        self.key, self.detail = key, detail


class Case:
    def __init__(self, cas, seed, exe, scratch, env, st):
        self.r = random.Random('%d.%d' % (seed, cas))
        self.dir = os.path.join(scratch, 'c%d' % cas)
        os.makedirs(self.dir)
        self.exe, self.env, self.st = exe, env, st
        self.log = []
        self.kv, self.hist, self.exists = {}, {ZERO: {}}, False
        self.sig = set()
        self.tree = Tree({})

    def add(self, k, n=1):
        self.st[k] = self.st.get(k, 0) + n

    def exec(self, args, env=None, cwd=None):
        e = dict(self.env, URKEL_GUARD=self.dir)
        e.update(env or {})
        self.log.append('%s%s' % (' '.join('%s=%s ' % x for x in (env or {}).items()), b' '.join(args).decode('latin1')[:300].encode('unicode_escape').decode()))
        self.add('invocations')
        try:
            p = subprocess.run([self.exe.encode()] + args, cwd=cwd or self.dir, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        except subprocess.TimeoutExpired:
            raise Fail('hang', 'no exit within 60 s')
        err = p.stderr.decode('latin1')
        self.log[-1] += ' -> %d %s%s' % (p.returncode, p.stdout[:80], ' / ' + err[:100].strip() if err else '')
        if p.returncode < 0 or p.returncode in (77, 66) or 'runtime error:' in err or 'AddressSanitizer' in err:
            raise Fail('crash', 'exit %d\n%s' % (p.returncode, err[:3000]))
        if 'ESCAPE' in err:
            raise Fail('effect-outside', err[:500])
        return p.returncode, p.stdout, err

    def image(self):
        d = os.path.join(self.dir, 'db')
        if not os.path.isdir(d):
            return None
        o = {}
        for n in sorted(os.listdir(d)):
            if n != 'lock':
                with open(os.path.join(d, n), 'rb') as f:
                    o[n] = f.read()
        return o

    # ---- generators
    def mkkeys(self):
        r = self.r
        ks = []
        base = r.randbytes(32)
        for _ in range(r.randint(2, 14)):
            x = r.random()
            if x < .4:
                ks.append(r.randbytes(32))
            elif x < .8:
                k = bytearray(base)
                i = r.choice([0, 1, 7, 8, 100, 127, 128, 200, 254, 255, r.randrange(256)])
                k[i >> 3] ^= 1 << (7 - (i & 7))
                ks.append(bytes(k))
            else:
                ks.append(r.choice([bytes(32), b'\xff' * 32, base]))
        self.names = [r.choice([b'foo', b'', b'a b', b'\xff\xfe', b'x' * r.randrange(300), b'key%d' % r.randrange(9), b'%s%n', b'zz\n']) for _ in range(4)]
        self.keys = ks

    def hx(self, b):
        s = b.hex()
        x = self.r.random()
        return (s.upper() if x < .15 else ''.join(self.r.choice((c, c.upper())) for c in s) if x < .3 else s).encode()

    def keyarg(self):
        """-> (args, key)"""
        if self.r.random() < .3:
            n = self.r.choice(self.names)
            return n, True, H(n)
        k = self.r.choice(self.keys) if self.r.random() < .9 else self.r.randbytes(32)
        return self.hx(k), False, k

    def value(self):
        r = self.r
        n = r.choice([0, 1, 2, 31, 32, 33, 255, 256, 257, 511, 512, 513, 1022, 1023, r.randrange(1024), r.randrange(60)])
        return r.choice([bytes(n), b'\xff' * n, r.randbytes(n), r.randbytes(n)])

    def rootarg(self):
        r = self.r
        x = r.random()
        if x < .6:
            return r.choice(list(self.hist))
        if x < .75:
            return self.tree.root
        if x < .85:
            h = bytearray(r.choice(list(self.hist)))
            h[r.randrange(32)] ^= 1 << r.randrange(8)
            return bytes(h)
        return r.randbytes(32)

    def path_args(self):
        r = self.r
        x = r.random()
        if x < .45:
            return [b'-p', b'db'], {}, None
        if x < .6:
            return [b'--path', os.path.join(self.dir, 'db').encode()], {}, None
        if x < .7:
            return [], {'URKEL_PATH': 'db'}, None
        if x < .8:
            return [b'-p', b'./nosuch/..//db/'], {'URKEL_PATH': 'elsewhere'}, None
        if x < .9 and os.path.isdir(os.path.join(self.dir, 'db')):
            return [], {}, os.path.join(self.dir, 'db')
        return [b'-p', b'wrong', b'-p', b'db'], {}, None

    def shuffle_in(self, pos, opts):
        """options may stand anywhere; each option is a list that stays together"""
        slots = [[p] for p in pos]
        for o in opts:
            slots.insert(self.r.randint(0, len(slots)), o)
        return [a for s in slots for a in s]

    # ---- one judged invocation
    def step(self):
        r = self.r
        act = r.choices(ACTIONS, [3, 2, 5, 6, 14, 24, 9, 6, 12, 12])[0]
        pa, env, cwd = self.path_args()
        opts = [pa[i:i + 2] for i in range(0, len(pa), 2)]
        pos = [act.encode()]
        if act in ('get', 'insert', 'remove', 'prove', 'verify'):
            a, hashed, key = self.keyarg()
            if a[:1] == b'-':
                return
            pos.append(a)
            if hashed:
                opts.append([r.choice([b'-H', b'--hash'])])
        root = None
        if act == 'verify' or (act in ('info', 'get', 'list', 'prove') and r.random() < .4) or r.random() < .03:
            root = self.rootarg()
            opts.append([r.choice([b'-r', b'--root']), self.hx(root)])
        if act == 'insert':
            v = self.value()
            if r.random() < .1 and self.kv.get(key) is not None:
                v = self.kv[key]
            pos.append(self.hx(v))
        if act == 'verify':
            t = self.tree if r.random() < .5 else Tree(r.choice(list(self.hist.values())))
            if r.random() < .6:
                root = t.root
                opts[-1][1] = self.hx(root)
            k2 = key if r.random() < .8 else r.choice(self.keys)
            proof = bytearray(t.prove(k2))
            if r.random() < .35:
                x = r.random()
                if x < .4 and proof:
                    proof[r.randrange(len(proof))] ^= 1 << r.randrange(8)
                elif x < .6:
                    proof = proof[:r.randrange(len(proof) + 1)]
                elif x < .7:
                    proof += r.randbytes(r.randint(1, 40))
                else:
                    proof = bytearray(r.randbytes(r.randrange(200)))
            pos.append(self.hx(bytes(proof)))
        if r.random() < .1 and len(pos) > 1:
            pos.append(b'extra')
        args = self.shuffle_in(pos, opts)
        if r.random() < .22:
            args = self.mutate(args)
        fault = short = None
        x = r.random()
        if x < .06:
            fault = '-1:%d:%d:%d:%d' % (r.choice([r.randint(1, 12), r.randint(1, 60)]), r.choice([5, 28, 24, 13]), r.choice([0, 0, 7]), r.choice([1, 1, 2, -1]))
            env['URKEL_FAULT'] = fault
        elif x < .1:
            short = env['URKEL_SHORT'] = str(r.randrange(1, 1 << 30))
        self.judge(args, env, cwd, fault)

    def mutate(self, args):
        r = self.r
        a = list(args)
        x = r.randrange(12)
        i = r.randrange(len(a))
        if x == 0:
            del a[i]
        elif x == 1:
            a.insert(i, r.choice([b'-x', b'--nope', b'-', b'--', b'-p', b'-r', b'--root', b'--path', b'-H', b'-h', b'--help', b'-P', b'--paths']))
        elif x == 2:
            a[i] = a[i][:-1]
        elif x == 3:
            a[i] = a[i] + r.choice([b'0', b'g', b'00', b' ', b'\xc3', b'\n'])
        elif x == 4 and a[i]:
            b = bytearray(a[i])
            b[r.randrange(len(b))] = r.choice([0x67, 0x20, 0x80, 0xff, 0x2f, 0x3a, 0x40, 0x47, 0x60, 0x2d, 0x01])
            a[i] = bytes(b)
        elif x == 5:
            a[i] = b''
        elif x == 6:
            a = a + [b'more'] * r.choice([1, 5, 27, 28, 29, 30, 31, 32, 33, 40, 300])
        elif x == 7:
            a = [b for b in a if b not in (b'-H', b'--hash')]
        elif x == 8:
            a[i] = a[i].swapcase()
        elif x == 9:
            a[i] = r.choice([b'ab' * 1023, b'AB' * 1024, b'cd' * 1025, b'0' * 64, b'0' * 63, b'0' * 62, b'0' * 66, b'00' * 20000, b'zz' * 32])
        elif x == 10:
            a.reverse()
        else:
            j = r.randrange(len(a))
            a[i], a[j] = a[j], a[i]
        return a

    def judge(self, args, env, cwd, fault):
        penv = {k: v for k, v in env.items() if k == 'URKEL_PATH'}
        want = parse(args, penv)
        # only the database of this case, or a path which cannot exist, is ever addressed
        ours = False
        if len(want) == 5:
            p = os.path.normpath(os.path.join(cwd or self.dir, want[1].decode('latin1').encode('latin1').decode('utf8', 'surrogateescape')))
            if want[1] == b'':
                p = cwd or self.dir
            ours = p == os.path.join(self.dir, 'db')
            if not ours and want[0] != 'verify':
                if len(p) > 900 or '\n' in p:
                    return
                # another directory: run only what leaves the model alone
                if p == self.dir or not p.startswith(self.dir + '/') or p.startswith(self.dir + '/db/'):
                    return
                args = args
        before = self.image()
        rc, out, err = self.exec(args, env, cwd)
        after = self.image()
        self.sig.add((want[0], rc == 0))
        if want[0] == 'help':
            self.expect(rc == 0 and b'Usage:' in out, 'help', 'help: exit %d' % rc)
            self.expect(after == before, 'modified', 'help changed the database')
            return
        if want[0] in ('bad', 'usage'):
            self.add('malformed')
            self.expect(rc != 0, 'malformed-accepted', 'malformed arguments were accepted (exit 0)')
            self.expect(want[0] == 'usage' or out == b'', 'malformed-output', 'malformed arguments, but output %r' % out[:100])
            self.expect(after == before, 'modified', 'malformed arguments changed the database')
            return
        act, path, root, key, arg = want
        if act == 'verify':
            try:
                v = verify(arg, key, root)
                ok, text = True, b'' if v is None else v.hex().encode() + b'\n'
            except Bad:
                ok, text = False, b''
            self.add('verified' if ok else 'rejected')
            self.expect((rc == 0) == ok, 'verify', 'verify exited %d, the proof is %s' % (rc, 'valid' if ok else 'invalid'))
            self.expect(out == text, 'verify', 'verify printed %r, expected %r' % (out[:80], text[:80]))
            self.expect(after == before, 'modified', 'verify changed the database')
            return
        if not ours:
            self.expect(after == before, 'modified', 'a command on another path changed the database')
            p = os.path.normpath(os.path.join(cwd or self.dir, path.decode('utf8', 'surrogateescape')))
            shutil.rmtree(p, ignore_errors=True)
            return
        fired = fault and 'FIRED 0' not in err
        kv = self.kv if self.exists else {}
        hist = self.hist if self.exists else {ZERO: {}}
        view = kv if root is None else hist.get(root)
        ok, text, new, gone = True, b'', None, False
        if act == 'create':
            new = kv
        elif act == 'destroy':
            ok = self.exists
            gone = ok
        elif act == 'info':
            ok = view is not None
            if ok:
                rr = {Tree(kv).root if kv else ZERO, root or ZERO}
                text = [b'Items: %d\nSize:  %d\nRoot:  %s\n' % (len(view), sum(32 + len(v) for v in view.values()), h.hex().encode()) for h in ([self.cur()] + ([root] if root is not None else []))]
        elif act == 'root':
            text = self.cur().hex().encode() + b'\n'
        elif act == 'get':
            ok = view is not None and key in view
            if ok:
                text = view[key].hex().encode() + b'\n'
        elif act == 'insert':
            new = dict(kv)
            new[key] = arg
        elif act == 'remove':
            ok = key in kv
            if ok:
                new = dict(kv)
                del new[key]
        elif act == 'list':
            ok = view is not None
            if ok:
                text = b''.join(k.hex().encode() + b'\n' for k in sorted(view))
        elif act == 'prove':
            ok = view is not None
            if ok:
                text = Tree(view).prove(key).hex().encode() + b'\n'
        texts = text if isinstance(text, list) else [text]
        if fired:
            self.add('faulted')
            if rc != 0:   # an injected fault was reported
                self.recheck(act, kv, new, gone)
                return
        self.add('ok_' + act if ok else 'err_' + act)
        self.expect((rc == 0) == ok, 'status', '%s exited %d, expected %s' % (act, rc, 'success' if ok else 'failure'))
        if ok:
            self.expect(out in texts, 'output', '%s printed %r, expected %r' % (act, out[:200], texts[0][:200]))
        else:
            self.expect(out == b'', 'output', 'failed %s printed %r' % (act, out[:100]))
        if gone:
            self.expect(after is None, 'destroy', 'the database is still there after destroy')
            self.exists, self.kv, self.hist, self.tree = False, {}, {ZERO: {}}, Tree({})
            return
        if ok and new is not None and act != 'create':
            self.accept(new)
        else:
            if act != 'destroy':
                self.exists = True   # any open creates an empty database
            if before is not None and 'meta' in before and not fired and ok is False or (act not in ('insert', 'remove', 'create') and before is not None and 'meta' in before and not fired):
                self.expect(after == before, 'modified', '%s %s changed the database' % ('failed' if not ok else 'read-only', act))

    def cur(self):
        return self.tree.root if self.exists else ZERO

    def accept(self, new):
        if not self.exists:
            self.hist = {ZERO: {}}
        self.exists = True
        self.kv = new
        self.tree = Tree(new)
        self.hist[self.tree.root] = new

    def recheck(self, act, kv, new, gone):
        """after a reported fault: nothing changed (or the database is partly destroyed)"""
        if gone:
            shutil.rmtree(os.path.join(self.dir, 'db'), ignore_errors=True)
            self.exists, self.kv, self.hist, self.tree = False, {}, {ZERO: {}}, Tree({})
            return
        if not self.exists:   # perhaps created, perhaps not
            shutil.rmtree(os.path.join(self.dir, 'db'), ignore_errors=True)
            return
        rc, out, err = self.exec([b'list', b'-p', b'db'])
        self.expect(rc == 0 and out == b''.join(k.hex().encode() + b'\n' for k in sorted(self.kv)), 'after-fault', 'after %s reported a failure, the contents are not the previous ones' % act)
        rc, out, err = self.exec([b'root', b'-p', b'db'])
        self.expect(rc == 0 and out == self.cur().hex().encode() + b'\n', 'after-fault', 'after %s reported a failure, the root is %r' % (act, out))

    def locked(self):
        """another process holds the lock: refused, nothing changed"""
        p = os.path.join(self.dir, 'db', 'lock')
        if not os.path.isdir(os.path.dirname(p)):
            return
        fd = os.open(p, os.O_RDWR | os.O_CREAT, 0o640)
        try:
            fcntl.lockf(fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
            before = self.image()
            act = self.r.choice([b'get', b'insert', b'remove', b'list', b'root', b'info', b'create', b'destroy', b'prove'])
            args = [act, b'-p', b'db'] + ([self.hx(self.r.choice(self.keys))] if act in (b'get', b'insert', b'remove', b'prove') else []) + ([b'aa'] if act == b'insert' else [])
            rc, out, err = self.exec(args)
            self.expect(rc != 0 and out == b'', 'locked', '%s exited %d and printed %r while another process has the database open' % (act.decode(), rc, out[:80]))
            self.expect(self.image() == before, 'modified', 'a refused %s changed the database' % act.decode())
            self.add('locked_refusals')
        finally:
            os.close(fd)
            try:
                os.unlink(p)
            except OSError:
                pass

    def crowd(self):
        """several invocations at once: those that succeed, and only those, count"""
        r = self.r
        ks = [r.randbytes(32) for _ in range(r.randint(3, 7))]
        vs = [self.value() for _ in ks]
        e = dict(self.env, URKEL_GUARD=self.dir)
        ps = [subprocess.Popen([self.exe, 'insert', '-p', 'db', k.hex(), v.hex()], cwd=self.dir, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE) for k, v in zip(ks, vs)]
        new = dict(self.kv if self.exists else {})
        first = self.exists
        cand = []
        for p, k, v in zip(ps, ks, vs):
            try:
                out, err = p.communicate(timeout=60)
            except subprocess.TimeoutExpired:
                raise Fail('hang', 'no exit within 60 s')
            err = err.decode('latin1')
            if p.returncode < 0 or p.returncode in (77, 66):
                raise Fail('crash', 'exit %d\n%s' % (p.returncode, err[:3000]))
            self.add('invocations')
            if p.returncode == 0:
                new[k] = v
                cand.append(k)
        self.log.append('%d inserts at once, %d succeeded' % (len(ks), len(cand)))
        self.add('crowd_refused', len(ks) - len(cand))
        self.add('crowd_ok', len(cand))
        rc, out, err = self.exec([b'list', b'-p', b'db'])
        self.expect(rc == 0 and out == b''.join(k.hex().encode() + b'\n' for k in sorted(new)), 'crowd', 'of %d concurrent inserts %d succeeded, but the contents are not exactly theirs' % (len(ks), len(cand)))
        self.exists = True
        if not first:
            self.hist = {ZERO: {}}
        # intermediate roots exist too, in an order that is not known
        if cand:
            self.accept(new)

    def expect(self, cond, key, detail):
        self.add('oracle_evaluations')
        if not cond:
            raise Fail(key, detail)

    def run(self):
        self.mkkeys()
        for _ in range(self.r.randint(12, 40)):
            self.step()
            x = self.r.random()
            if x < .04:
                self.locked()
            elif x < .06:
                self.crowd()
        self.add('cases')
        self.add('commits', len(self.hist) - 1)


def run(prop, tier, seed, scratch, agg, results, env, spec):
    exe = build.cli()
    n = spec[tier]
    lock = threading.Lock()
    done = threading.Event()
    t_end = time.time() + (560 if tier == 'quick' else 7000)

    def one(cas):
        if done.is_set() or time.time() > t_end:
            return
        st = {}
        c = Case(cas, seed, exe, scratch, env, st)
        try:
            c.run()
            f = None
        except Fail as e:
            f = e
        shutil.rmtree(c.dir, ignore_errors=True)
        with lock:
            for k, v in st.items():
                agg['stats'][k] = agg['stats'].get(k, 0) + v
            agg['distinct'].setdefault('cases', set()).add(hash((cas, c.tree.root, tuple(sorted(c.sig)))))
            if len(agg['samples']) < 8:
                agg['samples'].append('case %d: %d invocations, the last: %s' % (cas, st.get('invocations', 0), c.log[-1][:200] if c.log else ''))
            if f and not done.is_set():
                import check
                m = sys.modules.get('__main__')
                known = (m.is_known if hasattr(m, 'is_known') else check.is_known)(prop, f.key, f.detail)
                if known:
                    results.append(('known', known))
                    return
                done.set()
                d = os.path.join(build.VERIF, 'out')
                os.makedirs(d, exist_ok=True)
                path = os.path.join(d, '%s-cli-%d.txt' % (prop, cas))
                with open(path, 'w') as o:
                    o.write('property %s\nkey %s\ndetail %s\n\nVERIF_SEED=%d case %d: python3 tools/cli_check.py %d %d\ninvocations of %s:\n%s\n' % (prop, f.key, f.detail, seed, cas, seed, cas, exe, '\n'.join(c.log)))
                results.append(('violation', spec, f.key, f.detail + ' [' + (c.log[-1] if c.log else '') + ']', path, None))

    with ThreadPoolExecutor(10) as ex:
        list(ex.map(one, range(n)))
    if time.time() > t_end and not done.is_set():
        results.append(('inconclusive', 'command-line cases ran out of time'))


if __name__ == '__main__':
    import check, tempfile
    s = tempfile.mkdtemp(prefix='cli-', dir='/dev/shm')
    c = Case(int(sys.argv[2]), int(sys.argv[1]), build.cli(), s, check.ENV, {})
    try:
        c.run()
        print('held')
    except Fail as e:
        print(e.key, e.detail)
    print('\n'.join(c.log))
    shutil.rmtree(s)
