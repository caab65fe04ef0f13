"""A persistent group of MPI processes that runs cases on sub-communicators, driven over a Unix socket."""
import atexit, faulthandler, importlib, os, pickle, shutil, signal, socket, struct, subprocess, sys, tempfile, time, traceback

SIZE = 8
STACK = 15      # seconds after which processes record where they are
LIMIT = 60       # seconds for one case before it counts as stuck


def _die_with_parent():
    """Kill this process when its parent ends, so that no group outlives its check."""
    import ctypes
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def _send(s, obj):
    b = pickle.dumps(obj, protocol=4)
    s.sendall(struct.pack('>Q', len(b)) + b)


def _recv(s):
    def get(n):
        out = b''
        while len(out) < n:
            c = s.recv(min(1 << 20, n - len(out)))
            if not c:
                raise EOFError
            out += c
        return out
    return pickle.loads(get(struct.unpack('>Q', get(8))[0]))


class Server:
    """mpirun -n SIZE of this module; `call` runs module.function(comm, *args) on the first n ranks and returns rank 0's result."""
    live = None
    known_stuck = False     # a case that never ends has been found

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='m', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
        path = os.path.join(self.dir, 's')
        lst = socket.socket(socket.AF_UNIX)
        lst.bind(path)
        lst.listen(1)
        lst.settimeout(120)
        self.log = open(os.path.join(self.dir, 'log'), 'wb')
        env = {k: v for k, v in os.environ.items() if not k.startswith(('OMPI_COMM', 'PMIX', 'OMPI_UNIVERSE'))}
        env['TMPDIR'] = self.dir
        env['OMPI_MCA_orte_tmpdir_base'] = self.dir
        # the group lasts no longer than this process: rank 0 leaves when its socket closes
        self.p = subprocess.Popen(['mpirun', '-n', str(SIZE), '--oversubscribe', '--allow-run-as-root', '--bind-to', 'none', '--mca', 'mpi_yield_when_idle', '1',
                                   '--mca', 'btl', 'self,vader', '--mca', 'btl_vader_single_copy_mechanism', 'none', '--mca', 'btl_vader_backing_directory', self.dir, sys.executable, '-m', 'vlib.mpi', path, self.dir],
                                  env=env, stdin=subprocess.DEVNULL, stdout=self.log, stderr=subprocess.STDOUT, start_new_session=True, preexec_fn=_die_with_parent)
        try:
            self.s, _ = lst.accept()
        except OSError:
            self.close()
            from vlib.core import HarnessError
            raise HarnessError('MPI group did not start: ' + open(os.path.join(self.dir, 'log')).read()[-2000:] if os.path.exists(self.dir) else 'MPI group did not start')
        lst.close()

    def errors(self):
        out = {}
        for f in sorted(os.listdir(self.dir)):
            if f.startswith('err'):
                try:
                    with open(os.path.join(self.dir, f), 'rb') as fh:
                        out[int(f[3:])] = pickle.load(fh)
                except (EOFError, pickle.UnpicklingError, FileNotFoundError, ValueError):
                    pass
        return out

    def stacks(self):
        out = {}
        for r in range(SIZE):
            try:
                with open(os.path.join(self.dir, f'stack{r}')) as f:
                    out[r] = [ln.strip() for ln in f if ln.startswith('  File')][:6]
            except OSError:
                pass
        return {r: v for r, v in out.items() if v}

    def call(self, n, func, *args, limit=LIMIT):
        """Result: ('ok', value) or ('raised', {rank: (type name, message, traceback)}) or ('stuck', description)."""
        for r in range(SIZE):
            p = os.path.join(self.dir, f'err{r}')
            if os.path.exists(p):
                os.remove(p)
        _send(self.s, (n, func, args))
        t0 = time.time()
        seen = None
        self.s.settimeout(0.25)
        while True:
            try:
                # peek so that timeouts never cut a frame
                if self.s.recv(1, socket.MSG_PEEK) == b'':
                    raise EOFError
                self.s.settimeout(60)
                out = _recv(self.s)
                if out[0] != 'ok':
                    Server.stop()   # messages may be left over in the communicators
                return out
            except socket.timeout:
                pass
            except (EOFError, OSError):
                err = self.errors()
                log = open(os.path.join(self.dir, 'log'), 'rb').read()[-4500:].decode(errors='replace')
                Server.stop()
                return ('raised', err) if err else ('died', log)
            if seen is None and self.errors():
                seen = time.time()
            if seen and time.time() - seen > 5:
                # some ranks raised and the others wait for them
                err = self.errors()
                Server.stop()
                return 'raised', err
            if time.time() - t0 > limit:
                txt = self.stacks()
                Server.stop()
                return 'stuck', f'no result after {limit} s; innermost frames by process: {txt}'

    def close(self):
        try:
            os.killpg(self.p.pid, signal.SIGTERM)
        except (ProcessLookupError, AttributeError):
            pass
        try:
            self.p.wait(3)
        except subprocess.TimeoutExpired:
            os.killpg(self.p.pid, signal.SIGKILL)
            self.p.wait(5)
        time.sleep(0.05)
        shutil.rmtree(self.dir, ignore_errors=True)

    @classmethod
    def get(cls):
        if cls.live is None:
            cls.live = cls()
        return cls.live

    @classmethod
    def stop(cls):
        if cls.live is not None:
            live, cls.live = cls.live, None
            live.close()


def call(n, func, *args, **kw):
    return Server.get().call(n, func, *args, **kw)


atexit.register(Server.stop)


# ------------------------------------------------------------------------------------------------------------- ranks

def rank_main(path, d):
    _die_with_parent()
    from vlib.worker import setup_env
    setup_env()
    from dedalus.tools.config import config
    config['parallelism-fftw']['PLANNING_RIGOR'] = 'estimate'     # timing-based planning is slow with many processes
    config['transforms-fftw']['PLANNING_RIGOR'] = 'estimate'
    from mpi4py import MPI
    world = MPI.COMM_WORLD
    me = world.rank
    ppid = os.getppid()
    s = None
    if me == 0:
        s = socket.socket(socket.AF_UNIX)
        s.connect(path)
    subs, control = {}, {}
    for n in range(1, world.size + 1):
        subs[n] = world.Split(0 if me < n else MPI.UNDEFINED, me)
        control[n] = subs[n].Dup() if me < n else None
    def idle_bcast(obj):
        """Broadcast without spinning while the group is idle."""
        if me == 0:
            for r in range(1, world.size):
                world.send(obj, dest=r, tag=77)
            return obj
        wait = 1e-4
        while not world.iprobe(source=0, tag=77):
            time.sleep(wait)
            wait = min(wait * 1.5, 0.004)
            if os.getppid() != ppid:
                os._exit(0)
        return world.recv(source=0, tag=77)
    while True:
        msg = None
        if me == 0:
            try:
                msg = _recv(s)
            except (EOFError, OSError):
                os._exit(0)     # mpirun ends the others
        n, func, args = idle_bcast(msg)
        if me >= n:
            continue
        mod, name = func.rsplit('.', 1)
        stack = open(os.path.join(d, f'stack{me}'), 'w')
        faulthandler.dump_traceback_later(STACK, file=stack)
        try:
            out = ('ok', getattr(importlib.import_module(mod), name)(subs[n], *args))
            err = None
        except BaseException as e:
            err = (type(e).__name__, str(e)[:500], traceback.format_exc()[-3000:])
            tmp = os.path.join(d, f'tmp{me}')
            with open(tmp, 'wb') as f:
                pickle.dump(err, f)
            os.rename(tmp, os.path.join(d, f'err{me}'))
        faulthandler.cancel_dump_traceback_later()
        stack.close()
        # every rank reports; one that failed makes the whole case fail
        errs = control[n].allgather(err)
        if any(errs):
            out = ('raised', {r: e for r, e in enumerate(errs) if e})
        if me == 0:
            _send(s, out)


if __name__ == '__main__':
    try:
        rank_main(*sys.argv[1:3])
    except BaseException:
        traceback.print_exc()
        sys.stdout.flush()
        os._exit(3)
