"""C29 a data library update leaves exactly the requested version or is retried"""
import json
import os
import pathlib
import warnings
import numpy as np
from pyvc.contract import contract, Raised
from contracts.util import *

T = 'pelicun.tools.dlml.'
UPDATE = [T + x for x in ('dlml_update', 'download_data_files', '_download_file', '_get_changed_files', '_resolve_version_to_commit_sha', 'load_cache', 'save_cache', 'get_file_hash', 'get_dlml_data_dir', 'get_api_repo_url', 'get_raw_repo_url')]
API = 'https://api.test'
RAW = 'https://raw.test'


class Killed(BaseException):
    """the process ends here"""


class Library:
    """a remote repository: commits with their parents and files, releases, and the answers of the GitHub interface"""

    def __init__(self, limit=300):
        self.files, self.parent, self.order = {}, {}, []     # sha -> {path: bytes}, sha -> sha, shas
        self.tags, self.tag_type = {}, {}
        self.latest = None
        self.branch = {'main': None}
        self.limit = limit

    def commit(self, sha, files, parent=None):
        self.files[sha], self.parent[sha] = dict(files), parent
        self.order.append(sha)
        self.branch['main'] = sha

    def listing(self, sha):
        return [ln.strip() for ln in self.files[sha]['model_files.txt'].decode().split('\n') if ln.strip() and not ln.startswith('#')]

    def resolve(self, ref):
        for s in self.order:
            if s == ref or (len(ref) >= 7 and s.startswith(ref.lower())):
                return s
        return self.tags.get(ref) or self.branch.get(ref)

    def chain(self, sha):
        out = []
        while sha:
            out.append(sha)
            sha = self.parent[sha]
        return out

    def compare(self, a, b):
        ca, cb = self.chain(a), self.chain(b)
        base = next(x for x in ca if x in cb)
        status = 'identical' if a == b else 'ahead' if base == a else 'behind' if base == b else 'diverged'
        old, new = self.files[base], self.files[b]
        out = []
        gone = {p: c for p, c in old.items() if p not in new}
        for p in sorted(set(old) | set(new)):
            if p in gone or old.get(p) == new.get(p):
                continue
            src = next((q for q, c in gone.items() if c == new[p]), None) if p not in old else None
            if src:
                del gone[src]
                out.append({'filename': p, 'status': 'renamed', 'previous_filename': src})
            else:
                out.append({'filename': p, 'status': 'modified' if p in old else 'added'})
        out += [{'filename': p, 'status': 'removed'} for p in gone]
        return {'status': status, 'files': out[:self.limit]}

    def answer(self, url):
        """status code and content"""
        api, raw = f'{API}/repos/own/lib', f'{RAW}/own/lib/'
        if url.startswith(raw):
            ref, path = url[len(raw):].split('/', 1)
            sha = self.resolve(ref)
            if sha is None or path not in self.files[sha]:
                return 404, b''
            return 200, self.files[sha][path]
        if not url.startswith(api):
            return 404, b''
        p = url[len(api):].strip('/').split('?')[0]
        js = None
        if p == 'releases/latest':
            js = {'tag_name': self.latest, 'target_commitish': 'main'} if self.latest else None
        elif p.startswith('releases/tags/'):
            t = p.split('/', 2)[2]
            js = {'tag_name': t, 'target_commitish': 'main'} if t in self.tags else None
        elif p.startswith('git/refs/tags/'):
            t = p.split('/', 3)[3]
            if t in self.tags:
                js = {'object': {'sha': self.tags[t], 'type': 'commit'}} if self.tag_type[t] == 'commit' else {'object': {'sha': 'a' * 33 + t.encode().hex()[:7].ljust(7, '0'), 'type': 'tag'}}
        elif p.startswith('git/tags/'):
            for t in self.tags:
                if 'a' * 33 + t.encode().hex()[:7].ljust(7, '0') == p.split('/')[2]:
                    js = {'object': {'sha': self.tags[t], 'type': 'commit'}}
        elif p == 'commits':
            js = [{'sha': s} for s in self.chain(self.branch['main'])]
        elif p.startswith('compare/'):
            a, b = (self.resolve(x) for x in p.split('/', 1)[1].split('...'))
            js = self.compare(a, b) if a and b else None
        elif p.startswith('commits/'):
            s = self.resolve(p.split('/')[1])
            js = {'sha': s} if s else None
        return (404, b'') if js is None else (200, json.dumps(js).encode())


class Answer:
    def __init__(self, net, url, code, content):
        self.net, self.url, self.status_code, self.content, self.ok = net, url, code, content, code < 400
        self.text, self.headers = content.decode('utf-8', 'replace'), {}

    def raise_for_status(self):
        import requests
        if self.status_code >= 400:
            raise requests.exceptions.HTTPError(f'{self.status_code} for {self.url}')

    def json(self):
        return json.loads(self.content)

    def iter_content(self, chunk_size=1, **k):
        n = max(1, min(int(chunk_size or 1), self.net.chunk))
        for i in range(0, len(self.content), n):
            self.net.event('chunk')
            yield self.content[i:i + n]

    def close(self): pass

    def __enter__(self): return self

    def __exit__(self, *a): pass


class Net:
    """the network and the disk, with one interruption at a chosen point"""

    def __init__(self, lib, chunk):
        self.lib, self.chunk, self.n, self.at, self.how, self.log, self.fired, self.tags_fail = lib, chunk, 0, None, None, [], None, False

    def arm(self, at=None, how=None):
        self.n, self.at, self.how, self.fired = 0, at, how, None

    def event(self, what, url=''):
        import requests
        if self.at is not None and self.how == 'failed' and '/git/' in url and not self.tags_fail:
            return      # see 'tag lookup fails'
        self.n += 1
        if self.at is not None and self.n == self.at:
            self.fired = what
            if self.how == 'killed':
                raise Killed
            if what == 'write':
                raise OSError(28, 'No space left on device')
            raise requests.exceptions.ConnectionError('connection lost')

    def get(self, url, params=None, **k):
        self.event('request', url)
        self.log.append(url)
        return Answer(self, url, *self.lib.answer(url))


class Slow:
    """a file opened for writing; an interruption can happen in the middle of each write"""

    def __init__(self, f, net):
        self.f, self.net = f, net

    def write(self, data):
        n0 = self.net.n
        try:
            self.net.event('write')
        except BaseException:
            self.f.write(data[:len(data) // 2])
            raise
        return self.f.write(data)

    def writelines(self, x):
        for i in x:
            self.write(i)

    def __enter__(self):
        self.f.__enter__()
        return self

    def __exit__(self, *a):
        return self.f.__exit__(*a)

    def __iter__(self): return iter(self.f)

    def __getattr__(self, k): return getattr(self.f, k)


class world:
    """a library folder in a scratch directory and a remote repository instead of the network"""
    ENV = {'PELICUN_GITHUB_API_URL': API, 'PELICUN_GITHUB_RAW_URL': RAW, 'DLML_REPO_OWNER': 'own', 'DLML_REPO_NAME': 'lib', 'GITHUB_TOKEN': None}

    def __init__(self, net):
        self.net = net

    def __enter__(self):
        import contextlib
        from pelicun.tools import dlml
        self.st = contextlib.ExitStack()
        self.dir = pathlib.Path(self.st.enter_context(tempdir())) / 'lib'
        env = {**self.ENV, 'DLML_DATA_DIR': str(self.dir)}
        old = {k: os.environ.get(k) for k in env}
        self.st.callback(lambda: [os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v) for k, v in old.items()])
        for k, v in env.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        self.st.enter_context(swap(dlml.requests, 'get', self.net.get))
        real, net, root = pathlib.Path.open, self.net, str(self.dir)

        def opened(p, mode='r', *a, **k):
            f = real(p, mode, *a, **k)
            return Slow(f, net) if str(p).startswith(root) and ('w' in mode or 'a' in mode) else f
        self.st.enter_context(swap(pathlib.Path, 'open', opened))
        self.st.enter_context(quiet())
        self.dlml = dlml
        return self

    def __exit__(self, *a):
        self.st.__exit__(*a)

    # observations
    def on_disk(self, sha):
        """paths of the listed files (and the list) that do not have the content of the version"""
        L = self.net.lib
        out = set()
        for p in ['model_files.txt', *L.listing(sha)]:
            f = self.dir / p
            if not f.is_file() or f.read_bytes() != L.files[sha][p]:
                out.add(p)
        return out

    def record(self):
        try:
            d = json.loads((self.dir / '.dlml_cache.json').read_bytes())
        except (OSError, ValueError, RecursionError):
            return None
        return d if isinstance(d, dict) else None

    def claimed(self):
        """the version the record claims, or None"""
        d = self.record()
        if d is None:
            return None
        s = d.get('commit_sha')
        return self.net.lib.resolve(s) if isinstance(s, str) and s else None


def content(r, k=None):
    n = int(r.choice([0, 1, 5, 40])) if k is None else k
    return bytes(r.integers(97, 123, n).astype(np.uint8))


PATHS = ['a.csv', 'b/b.csv', 'b/c.json', 'seismic/d e.csv', 'f_1.csv', 'g.txt']


def sha(r):
    return ''.join(r.choice(list('0123456789abcdef'), 40))


def library(r, big=False):
    """a random history of a library"""
    L = Library()
    pool = [f'x/{i}.csv' for i in range(int(r.integers(301, 330)))] if big else PATHS
    paths = pool if big else [p for p in pool if r.random() < 0.8] or pool[:1]
    cur = {p: content(r) for p in paths}
    heads = []
    for i in range(int(r.integers(2, 5))):
        parent = None if not heads else (heads[-1] if r.random() < 0.7 else heads[int(r.integers(len(heads)))])
        if parent:
            cur = dict(L.files[parent])
            cur.pop('model_files.txt')
            for p in list(cur):
                u = r.random()
                if big and u < 0.97 or u < 0.3:
                    cur[p] = content(r)
                elif u < 0.4 and len(cur) > 1:
                    del cur[p]
                elif u < 0.5:
                    q = str(r.choice(PATHS))
                    if q not in cur:
                        cur[q] = cur.pop(p)
            if r.random() < 0.3:
                cur.setdefault(str(r.choice(PATHS)), content(r))
        listed = [p for p in sorted(cur) if r.random() < 0.9]
        lines = ['# models', ''] if r.random() < 0.3 else []
        s = sha(r)
        L.commit(s, {**cur, 'model_files.txt': '\n'.join(lines + [(' ' + p if r.random() < 0.1 else p) for p in listed]).encode() + (b'\n' if r.random() < 0.8 else b'')}, parent)
        heads.append(s)
    for i, s in enumerate(heads):
        if i == 0 or r.random() < 0.6:
            t = f'v{i + 1}.0.0'
            L.tags[t], L.tag_type[t], L.latest = s, str(r.choice(['commit', 'tag'])), t
    return L


def target(r, L):
    """arguments of an update and the commit it asks for"""
    u = r.random()
    if u < 0.45:
        t = str(r.choice(list(L.tags)))
        return {'version': t}, L.tags[t]
    if u < 0.6:
        return ({'version': 'latest'} if r.random() < 0.5 else {}), L.tags[L.latest]
    if u < 0.85:
        s = L.order[int(r.integers(len(L.order)))]
        return {'commit': s[:7].upper() if r.random() < 0.1 else s[:7]}, s
    return {'commit': 'latest'}, L.branch['main']


def garbage(r, L):
    """the content of a damaged version record"""
    s = L.order[int(r.integers(len(L.order)))]
    good = {'commit_sha': s, 'version': 'v1.0.0', 'download_type': 'version', 'last_updated': '2025-01-01T00:00:00', 'files': {p: 'f' * 64 for p in L.listing(s)}}
    bad = [None, 5, True, [], ['x'], {}, '', [1, {}]]
    u = r.random()
    if u < 0.2:
        t = json.dumps(good).encode()
        return t[:int(r.integers(len(t)))]
    if u < 0.35:
        return bytes(r.integers(0, 256, int(r.integers(0, 60))).astype(np.uint8))
    if u < 0.5:
        return json.dumps(bad[int(r.integers(len(bad)))]).encode()
    if u < 0.55:
        return b'[' * 100000
    for k in good:
        if r.random() < 0.5:
            good[k] = bad[int(r.integers(len(bad)))]
    if isinstance(good['files'], dict) and isinstance(good['commit_sha'], str):
        good['files'] = {p: bad[int(r.integers(len(bad)))] for p in good['files']} or None    # (a well-formed record with invented claims is not a damaged record)
    for k in ('last_version_check', 'update_available', 'current_version', 'latest_version', 'version_check_error'):
        if r.random() < 0.5:
            good[k] = bad[int(r.integers(len(bad)))]
    return json.dumps(good).encode()


def tamper(r, W, restorable):
    """what can happen to the folder between two updates; restorable: only changes that the next update can see"""
    L = W.net.lib
    done = []
    for p in list(PATHS) + ['model_files.txt']:
        f = W.dir / p
        u = r.random()
        if u < 0.15 and f.is_file():
            f.unlink()
            done.append(('lost', p))
        elif u < 0.25 and not restorable:
            f.parent.mkdir(parents=True, exist_ok=True)
            f.write_bytes(content(r))
            done.append(('damaged', p))
    u = r.random()
    if u < 0.15 and (W.dir / '.dlml_cache.json').is_file():
        (W.dir / '.dlml_cache.json').unlink()
        done.append(('lost', 'record'))
    elif u < 0.35:
        W.dir.mkdir(parents=True, exist_ok=True)
        (W.dir / '.dlml_cache.json').write_bytes(garbage(r, L))
        done.append(('damaged', 'record'))
    return done


def attempt(S, W, kw):
    """one update; the outcome: None, 'refused' (reported to the caller) or 'killed'"""
    try:
        W.dlml.dlml_update(**kw)
    except Killed:
        return 'killed'
    except RuntimeError:
        return 'refused'
    except Exception as e:  # noqa: BLE001
        if W.net.fired == 'write' and isinstance(e, OSError):
            return 'refused'
        S.ensure('an update succeeds or is reported as failed', False, f'{type(e).__name__}: {e}')
    return None


def shortcut(W, want, kw):
    """the update is asked for the version on record while listed files were damaged (known finding; see 'damaged under the recorded version')"""
    d = W.record()
    if d is None or kw.get('use_cache') is False or W.claimed() != want:
        return False
    if not isinstance(d.get('files'), dict) or not all(isinstance(h, str) and h for h in d['files'].values()):
        return False
    bad = {p for p in W.on_disk(want) if (W.dir / p).is_file()}
    return bool(bad)


def update(S, W, kw, want, at=None, how=None):
    before, had = (W.claimed(), W.on_disk(W.claimed()) if W.claimed() else None)
    W.net.arm(at, how)
    out = attempt(S, W, kw)
    fired = W.net.fired
    W.net.arm()
    if out is None and fired is None:
        bad = W.on_disk(want)
        S.ensure('after an update every listed file has the content of the requested version', not bad, f'{kw} {sorted(bad)}')
    if out is None and fired is not None:
        # a failed request that the update could do without
        bad = W.on_disk(want)
        S.ensure('an update that reports success although a request failed installed the requested version', not bad, f'{kw} {fired} {sorted(bad)}')
    now = W.claimed()
    if now:
        bad = W.on_disk(now)
        if now == before:
            bad -= had
        S.ensure('the recorded version never claims more than what is on disk', not bad, f'{kw} {out} {fired} at {at}: {sorted(bad)}')
    if out is None and kw.get('use_cache', True) is not False:
        S.ensure('the installed version is recorded', now == want, f'{kw}: {now} instead of {want}')
    return out, fired


@contract('C29', 'histories', UPDATE, kind='runtime', runs=1500, bound='up to 6 files and 4 versions, histories of up to 4 updates, one interruption at any request, transfer or write, any damage between updates',
          covers=['completed', 'killed', 'refused', 'damaged record', 'damaged file', 'lost file', 'older version', 'other branch', 'without cache', 'completed after interruption', 'reused'])
def histories(S):
    r = S.rng
    L = library(r)
    net = Net(L, int(r.choice([1, 3, 8192])))
    story = S.drawn.setdefault('history', [])
    with world(net) as W:
        if r.random() < 0.5:
            W.dir.mkdir()
            story.append(['before', tamper(r, W, False)])
        interrupted, last = False, None
        for step in range(int(r.integers(1, 5))):
            kw, want = target(r, L)
            if r.random() < 0.25:
                kw['use_cache'] = False
                S.cover('without cache')
            if r.random() < 0.5:
                t = tamper(r, W, False)
                story.append(['meanwhile', t])
                for a, b in t:
                    S.cover('damaged record' if (a, b) == ('damaged', 'record') else 'damaged file' if a == 'damaged' else 'lost file')
            if shortcut(W, want, kw):
                kw['use_cache'] = False
            at, how = (None, None) if r.random() < 0.5 else (int(r.integers(1, 25)), str(r.choice(['killed', 'failed'])))
            if last:
                c = L.compare(last, want)['status']
                S.cover('older version' if c == 'behind' else 'other branch' if c == 'diverged' else 'other')
            story.append([kw, want, at, how])
            had = W.claimed()
            net.log.clear()
            out, fired = update(S, W, kw, want, at, how)
            S.cover(out or 'completed')
            story[-1].append([out, fired])
            if interrupted and out is None and fired is None:
                S.cover('completed after interruption')
            if out is None:
                last = want
                got = {u.split('/', 6)[-1] for u in net.log if u.startswith(RAW)}
                if kw.get('use_cache', True) and had and any(p not in got for p in L.listing(want)):
                    S.cover('reused')
            interrupted = out is not None
        kw, want = target(r, L)
        if shortcut(W, want, kw):
            kw['use_cache'] = False
        story.append([kw, want])
        out, _ = update(S, W, kw, want)
        S.ensure('an update without interruptions completes whatever happened before', out is None, f'{kw}')



@contract('C29', 'every interruption', UPDATE, kind='runtime', runs=40, bound='up to 6 files and 4 versions; the second update is interrupted at each request, transfer and write in turn, by the end of the process and by an error',
          covers=['killed', 'refused', 'survived', 'same version again', 'previous version again', 'without cache'])
def every_interruption(S):
    r = S.rng
    L = library(r)
    net = Net(L, int(r.choice([2, 8192])))
    first, second, third = target(r, L), target(r, L), target(r, L)
    cached = [bool(r.random() < 0.8) for _ in range(3)]
    if not cached[1]:
        S.cover('without cache')
    u = r.random()
    if u < 0.4:
        third = second
        S.cover('same version again')
    elif u < 0.8:
        third = first
        S.cover('previous version again')
    S.drawn['updates'] = [first, second, third, cached]
    for how in ('killed', 'failed'):
        at = 0
        while at < 400:
            at += 1
            with world(net) as W:
                update(S, W, {**first[0], 'use_cache': cached[0]}, first[1])
                S.drawn['interruption'] = [how, at]
                out, fired = update(S, W, {**second[0], 'use_cache': cached[1]}, second[1], at, how)
                S.cover(out or 'survived')
                if fired is None:
                    break
                out, _ = update(S, W, {**third[0], 'use_cache': cached[2]}, third[1])
                S.ensure('the update after an interruption completes', out is None)


@contract('C29', 'large libraries', UPDATE, kind='runtime', runs=12, bound='up to 330 files', covers=['many changes'])
def large_libraries(S):
    r = S.rng
    L = library(r, big=True)
    net = Net(L, 8192)
    with world(net) as W:
        for s in [L.order[0], L.order[-1], *r.permutation(L.order)]:
            update(S, W, {'commit': s[:7]}, str(s))
        if max(len(L.compare(a, b)['files']) for a in L.order for b in L.order) >= L.limit:
            S.cover('many changes')


@contract('C29', 'first use', [T + x for x in ('check_dlml_data', 'check_dlml_version', 'load_cache', 'save_cache')], kind='runtime', runs=200,
          bound='any damage of the version record, one interruption', covers=['downloaded', 'checked', 'interrupted', 'warned', 'record damaged', 'record not writable', 'not asked again'])
def first_use(S):
    import sys
    r = S.rng
    L = library(r)
    net = Net(L, 8192)
    with world(net) as W, swap(sys, 'argv', ['pelicun']), warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter('always')
        if r.random() < 0.4:
            at = int(r.integers(1, 12)) if r.random() < 0.5 else None
            how = str(r.choice(['killed', 'failed']))
            S.drawn['first'] = [at, how]
            net.arm(at, how)
            try:
                W.dlml.check_dlml_data()
                ok = True
            except Killed:
                ok = False
            except RuntimeError as e:
                ok = False
                S.ensure('a failed download is reported with the way to repeat it', 'dlml update' in str(e) and at is not None, str(e))
            fired = net.fired
            net.arm()
            if ok:
                S.ensure('the first use downloads the latest release', not W.on_disk(L.tags[L.latest]), f'{sorted(W.on_disk(L.tags[L.latest]))} {fired}')
                S.ensure('the first use records the latest release', W.claimed() == L.tags[L.latest])
                S.cover('downloaded')
            else:
                S.cover('interrupted')
                kw, want = target(r, L)
                update(S, W, kw, want)
            return
        kw, want = target(r, L)
        update(S, W, kw, want)
        before = W.record()
        if r.random() < 0.6:
            (W.dir / '.dlml_cache.json').write_bytes(garbage(r, L))
            S.cover('record damaged')
            before = W.record()
        at = int(r.integers(1, 6)) if r.random() < 0.4 else None
        S.drawn['state'] = [kw, before, at]
        net.log.clear()
        net.arm(at, 'failed')
        res = S.call(W.dlml.check_dlml_data)
        if net.fired == 'write':
            S.cover('record not writable')
        fired = net.fired
        net.arm()
        S.no_raise('the library can be used whatever is in its version record', res)
        S.cover('checked')
        d = W.record()
        if before is not None and fired is None:
            for k in ('commit_sha', 'version', 'files', 'download_type'):
                S.ensure('checking for a newer version keeps the record of the installed one', d is not None and d.get(k) == before.get(k), k)
        asked = [u for u in net.log if u.endswith('/releases/latest')]
        if asked and fired is None:
            v, msgs = (before or {}).get('version'), [str(w.message) for w in seen if 'update available' in str(w.message)]
            newer = not isinstance(v, str) or not v or v.startswith('commit-') or [int(x) for x in v[1:].split('.')] < [int(x) for x in L.latest[1:].split('.')]
            S.ensure('a newer release is announced exactly when there is one', bool(msgs) == newer, f'{v} {L.latest} {msgs}')
            if msgs:
                S.cover('warned')
            net.log.clear()
            W.dlml.check_dlml_data()
            S.ensure('the check is done once per day', not net.log)
            S.cover('not asked again')
        kw, want = target(r, L)
        if shortcut(W, want, kw):
            kw['use_cache'] = False
        out, _ = update(S, W, kw, want)
        S.ensure('the library can be updated whatever is in its version record', out is None)


@contract('C29', 'changed files', [T + '_get_changed_files'], kind='runtime', runs=300, bound='up to 6 files and 4 versions', covers=['ahead', 'behind', 'diverged', 'identical', 'complete list', 'not known'])
def changed_files(S):
    r = S.rng
    L = library(r)
    net = Net(L, 8192)
    a, b = (L.order[int(r.integers(len(L.order)))] for _ in range(2))
    S.drawn['versions'] = [L.order, L.parent, a, b]
    with world(net) as W:
        if r.random() < 0.2:
            net.arm(int(r.integers(1, 3)), 'failed')
        got = S.call(W.dlml._get_changed_files, a, b, {})
        S.no_raise('compared', got)
    S.cover(L.compare(a, b)['status'])
    if got is None:
        S.cover('not known')
        return
    diff = {p for p in L.files[b] if p in L.files[a] and L.files[a][p] != L.files[b][p]}     # (files that the first version does not have are not on its record)
    S.ensure('every file that differs between the versions is listed, or the list is not used', diff <= set(got), f'{sorted(diff - set(got))} {L.compare(a, b)["status"]}')
    S.cover('complete list')


@contract('C29', 'one file in every state', [T + 'download_data_files'], kind='bounded', bound='one listed file; all combinations of what is on record, on disk and changed (the code treats the files of the list alike and only compares their contents and checksums)',
          covers=['reused', 'downloaded'])
def one_file(S):
    import hashlib
    old, new = 'a' * 40, 'b' * 40
    mode = S.case('requested', ['the recorded version', 'another version', 'nothing recorded'])
    changed = S.case('file in the requested version', ['as before', 'different', 'added'])
    local = S.case('local file', ['as recorded', 'requested content', 'damaged', 'missing'])
    rec = S.case('recorded checksum', ['genuine', 'missing', 'damaged', 'of the damaged file'])
    cmp_ = S.case('comparison', ['listed', 'not known', 'listed with others'])
    listed = S.case('local list', ['present', 'missing'])
    cached = S.case('use_cache', [True, False])
    A, B, X = b'old', b'new', b'damage'
    if changed == 'as before':
        B = A
    if mode == 'the recorded version':
        S.require(changed == 'as before')
        new = old
    if rec == 'of the damaged file':
        S.require(changed == 'added')     # a checksum on record for a version is the one of its content, unless the version does not have the file
    L = Library()
    L.commit(old, {'model_files.txt': b'f.csv\n' if changed != 'added' else b'', **({'f.csv': A} if changed != 'added' else {})})
    if new != old:
        L.commit(new, {'model_files.txt': b'f.csv\n', 'f.csv': B}, old)
    net = Net(L, 8192)
    with world(net) as W:
        W.dir.mkdir()
        if listed == 'present':
            (W.dir / 'model_files.txt').write_bytes(L.files[old]['model_files.txt'])
        disk = {'as recorded': A, 'requested content': B, 'damaged': X, 'missing': None}[local]
        if disk is not None:
            (W.dir / 'f.csv').write_bytes(disk)
        sums = {'genuine': hashlib.sha256(A).hexdigest(), 'missing': None, 'damaged': '0' * 64, 'of the damaged file': hashlib.sha256(X).hexdigest()}[rec]
        if mode != 'nothing recorded':
            files = {'f.csv': sums} if sums and (changed != 'added' or rec == 'of the damaged file') else {}
            S.require(not (mode == 'the recorded version' and cached and listed == 'present' and (local == 'damaged' or (rec == 'missing' and local != 'missing'))))    # see 'damaged under the recorded version'
            S.require(not (mode == 'the recorded version' and rec == 'missing'))
            (W.dir / '.dlml_cache.json').write_text(json.dumps({'commit_sha': old, 'version': 'v1.0.0', 'files': files}))
        answer = None if cmp_ == 'not known' else ({'f.csv'} if B != A or changed == 'added' else set()) | ({'g.csv'} if cmp_ == 'listed with others' else set())
        with swap(W.dlml, '_get_changed_files', lambda *a, **k: answer), swap(W.dlml, '_resolve_version_to_commit_sha', lambda *a, **k: (new, {'version': 'v2.0.0', 'download_type': 'version'})):
            out = S.call(W.dlml.download_data_files, version='v2.0.0', use_cache=cached)
        S.no_raise('updated', out)
        S.ensure('the file has the content it has in the requested version', (W.dir / 'f.csv').is_file() and (W.dir / 'f.csv').read_bytes() == B)
        S.ensure('the list is the one of the requested version', not W.on_disk(new))
        if any(u.endswith('f.csv') for u in net.log):
            S.cover('downloaded')
        else:
            S.cover('reused')
            S.ensure('a file is reused only if its content is verified against the recorded checksum', mode == 'the recorded version' or cached and disk is not None and hashlib.sha256(disk).hexdigest() == sums)
        now = W.claimed()
        S.ensure('the record names the installed version', now == (new if cached else None), f'{now}')


@contract('C29', 'damaged under the recorded version', [T + 'download_data_files'], kind='runtime', runs=20, bound='one damaged file', covers=['restored'])
def damaged_recorded(S):
    r = S.rng
    L = library(r)
    with world(Net(L, 8192)) as W:
        kw, want = target(r, L)
        S.require(bool(L.listing(want)))
        update(S, W, kw, want)
        p = str(r.choice(L.listing(want)))
        (W.dir / p).write_bytes(b'damaged')
        update_again = S.call(W.dlml.dlml_update, **kw)
        S.no_raise('updated', update_again)
        S.ensure('a file damaged after the update to the requested version is restored', not W.on_disk(want), p)
        S.cover('restored')


@contract('C29', 'tag lookup fails', [T + '_resolve_version_to_commit_sha'], kind='runtime', runs=20, bound='the request that resolves the tag of a release fails', covers=['done'])
def tag_lookup(S):
    r = S.rng
    L = library(r)
    net = Net(L, 8192)
    net.tags_fail = True
    t = str(r.choice(list(L.tags)))
    with world(net) as W:
        net.arm(2, 'failed')
        out = attempt(S, W, {'version': t})
        S.cover('done')
        if out is None:
            S.ensure('a release is installed from its tag when the lookup of the tag fails', not W.on_disk(L.tags[t]), t)
