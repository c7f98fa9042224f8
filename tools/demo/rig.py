# Runs the built keymapperd, keymapper and keymapperctl with fake input devices in a scratch directory.
import os, sys, time, struct, subprocess, tempfile, shutil, atexit, socket, glob

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
BUILD = os.path.join(REPO, '_build')
KEYS = {'Esc': 1, 'A': 30, 'B': 48, 'C': 46, 'D': 32, 'E': 18, 'F': 33, 'G': 34, 'H': 35, 'I': 23, 'J': 36, 'K': 37,
  'L': 38, 'M': 50, 'N': 49, 'O': 24, 'P': 25, 'Q': 16, 'R': 19, 'S': 31, 'T': 20, 'U': 22, 'V': 47, 'W': 17,
  'X': 45, 'Y': 21, 'Z': 44, 'Shift': 42, 'Control': 29, 'F1': 59, 'F2': 60, 'F3': 61, 'Space': 57,
  'Left': 0x110, 'Right': 0x111}
NAMES = {v: k for k, v in KEYS.items()}
EV = struct.Struct('llHHi')

class Rig:
  def __init__(self, conf=None, args=(), env=None):
    self.dir = tempfile.mkdtemp(prefix='kmdemo.')
    atexit.register(self.close)
    os.makedirs(self.dir + '/input/by-id')
    self.shim = self.dir + '/shim.so'
    subprocess.check_call(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', self.shim, HERE + '/shim.c', '-ldl'])
    self.env = dict(os.environ, LD_PRELOAD=self.shim, DEMO_DIR=self.dir, DEMO_ID='.%d' % os.getpid(),
      HOME=self.dir, XDG_CONFIG_HOME=self.dir)
    for v in ('DISPLAY', 'WAYLAND_DISPLAY', 'DBUS_SESSION_BUS_ADDRESS'): self.env.pop(v, None)
    self.env.update(env or {})
    self.conf = self.dir + '/keymapper.conf'
    self.devs, self.procs, self.down = {}, [], {}
    self.args = list(args)
    if conf is not None: self.write(conf)

  def write(self, conf, path=None, bump=None):
    path = path or self.conf
    tmp = path + '.tmp'
    with open(tmp, 'w') as f: f.write(conf)
    if bump: os.utime(tmp, (time.time() + bump,) * 2)
    os.rename(tmp, path)

  def plug(self, name='kb', kind='keyboard', node=None):
    node = len(self.devs) if node is None else node
    p = '%s/input/event%d' % (self.dir, node)
    open(p + '.caps', 'w').write('%s|%s' % (name, kind))
    open(p + '.keys', 'wb').write(bytes(96))
    os.mkfifo(self.dir + '/fifo')
    fd = os.open(self.dir + '/fifo', os.O_RDWR | os.O_NONBLOCK)
    os.rename(self.dir + '/fifo', p)
    self.devs[node] = fd
    self.down[node] = set()
    return node

  def unplug(self, node):
    p = '%s/input/event%d' % (self.dir, node)
    open(p + '.keys', 'wb').write(bytes(96))
    os.remove(p)

  def spawn(self, prog, *args, **kw):
    p = subprocess.Popen([BUILD + '/' + prog, *args], env=self.env, cwd=self.dir, stdin=subprocess.DEVNULL,
      stdout=kw.get('stdout', subprocess.DEVNULL), stderr=subprocess.DEVNULL)
    self.procs.append(p)
    return p

  def start(self):
    self.daemon = self.spawn('keymapperd')
    time.sleep(0.3)
    self.start_client()

  def start_client(self):
    n = self.count('grab ')
    self.client = self.spawn('keymapper', '--no-tray', '--no-notify', *self.args)
    self.wait(lambda: self.count('grab ') > n, 8)
    time.sleep(0.4)

  def wait(self, cond, limit):
    end = time.time() + limit
    while time.time() < end:
      if cond(): return True
      time.sleep(0.02)
    return False

  def count(self, prefix):
    try: return sum(1 for l in open(self.dir + '/log') if l.startswith(prefix))
    except FileNotFoundError: return 0

  def event(self, node, type, code, value):
    os.write(self.devs[node], EV.pack(0, 0, type, code, value) + EV.pack(0, 0, 0, 0, 0))

  def key(self, name, value, node=0, pause=0.03):
    code = KEYS[name]
    (self.down[node].add if value else self.down[node].discard)(code)
    bits = bytearray(96)
    for c in self.down[node]: bits[c // 8] |= 1 << (c % 8)
    open('%s/input/event%d.keys' % (self.dir, node), 'wb').write(bytes(bits))
    self.event(node, 1, code, value)
    time.sleep(pause)

  def tap(self, name, node=0, pause=0.03):
    self.key(name, 1, node, pause)
    self.key(name, 0, node, pause)

  def ctl(self, *args, timeout=10):
    p = self.spawn('keymapperctl', *args, stdout=subprocess.PIPE)
    try: out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
      p.kill(); return None, ''
    return p.returncode, out.decode()

  def events(self):
    r = []
    for f in sorted(glob.glob(self.dir + '/uinput.*'), key=lambda f: int(f.split('.')[-1])):
      d = open(f, 'rb').read()
      for i in range(0, len(d) // EV.size * EV.size, EV.size):
        s, u, t, c, v = EV.unpack_from(d, i)
        if t: r.append((s + u / 1e6, os.path.basename(f), t, c, v))
    return r

  # key events since the last call: "+A -A"
  def out(self, settle=0.25):
    time.sleep(settle)
    e = [x for x in self.events() if x[2] == 1]
    e.sort(key=lambda x: x[0])
    new = e[getattr(self, 'seen', 0):]
    self.seen = len(e)
    return ' '.join(('-' if v == 0 else '+' if v == 1 else '~') + NAMES.get(c, str(c)) for _, _, _, c, v in new)

  def close(self):
    for p in self.procs:
      if p.poll() is None: p.kill()
      p.wait()
    self.procs = []
    if self.dir: shutil.rmtree(self.dir, ignore_errors=True)
    self.dir = None

def expect(what, got, want):
  ok = got == want
  print('%s: %s%s' % (what, got, '' if ok else ' (expected %s)' % (want,)))
  if not ok: sys.exit(1)
