"""C33: the real gateway, its five tasks on real threads, built with ThreadSanitizer (perturb.cpp injects delays and records
the interleavings), on the loopback network with a broker and MQTT-SN clients in this process. The monitor reads the reports
of ThreadSanitizer and how the gateway ended. Same command line and result file as the kit harnesses, the gateway first."""
import glob, hashlib, json, os, random, re, select, shutil, signal, socket, ssl, struct, subprocess, sys, tempfile, threading, time
import argparse
def pkt(t, body=b''):
    n = len(body) + 2
    return bytes([n, t]) + body if n < 256 else b'\x01' + struct.pack('>H', n + 2) + bytes([t]) + body
def mpub(topic, data, qos=0, mid=0): return 0x30 | qos << 1, struct.pack('>H', len(topic)) + topic + (struct.pack('>H', mid) if qos else b'') + data
class Conn:
    """the broker's side of one connection"""
    def __init__(self, s): self.s = s; self.buf = b''; self.closed = False; self.lock = threading.Lock()
    def recv(self, t):
        end = time.time() + t
        while not self.closed:
            b = self.buf
            if len(b) >= 2:
                n = 0; sh = 0; i = 1; ok = False
                while i < len(b):
                    n |= (b[i] & 127) << sh; sh += 7; i += 1
                    if not b[i - 1] & 128: ok = True; break
                if ok and len(b) >= i + n: self.buf = b[i + n:]; return b[0], b[i:i + n]
            try:
                if not (isinstance(self.s, ssl.SSLSocket) and self.s.pending()):
                    if not select.select([self.s], [], [], max(0, min(.2, end - time.time())))[0]:
                        if time.time() >= end: return None
                        continue
                with self.lock: self.s.settimeout(0.2); d = self.s.recv(65536)
            except (socket.timeout, ssl.SSLWantReadError): continue
            except (OSError, ValueError): d = b''
            if not d: self.closed = True
            self.buf += d
        return None
    def send(self, first, body):
        h = bytes([first]); n = len(body)
        while True:
            d = n % 128; n //= 128; h += bytes([d | (128 if n else 0)])
            if not n: break
        with self.lock: self.s.settimeout(5); self.s.sendall(h + body)
class Certs:
    def __init__(self, dir):
        self.ok = False
        try:
            os.makedirs(dir + '/hash', exist_ok=True)
            subprocess.run(['openssl', 'req', '-x509', '-newkey', 'ec', '-pkeyopt', 'ec_paramgen_curve:prime256v1', '-nodes', '-keyout', 'key.pem', '-out', 'ca.pem', '-days', '3650', '-subj', '/CN=localhost', '-addext', 'subjectAltName=DNS:localhost'], check=True, cwd=dir, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            self.ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER); self.ctx.load_cert_chain(dir + '/ca.pem', dir + '/key.pem'); self.dir = dir; self.ok = True
        except Exception: pass
KINDS = ('transparent', 'aggregating', 'tls', 'ring', 'authentication', 'few', 'stalled')
class Case:
    next = 0
    def __init__(self, exe, seed, tmp, certs, j, stalled=False):
        self.j = j; self.exe = exe; self.seed = seed; self.r = r = random.Random(seed); self.stat = {}; self.subs = {}; self.over = False; self.lk = threading.Lock(); self.msgs = []; self.certs = certs
        self.kind = r.choice(KINDS); self.only = stalled
        if stalled: self.kind = 'stalled'
        self.stall = r.choice(['handshake', 'connect', 'read', 'read']) if self.kind == 'stalled' else None # the broker stops answering for good
        if self.kind == 'tls' and not certs.ok: self.kind = 'transparent'
        self.agg = self.kind == 'aggregating' or (self.kind in ('tls', 'ring', 'stalled') and r.random() < .3); self.tls = self.kind == 'tls' or self.stall == 'handshake' or (self.stall == 'read' and certs.ok and r.random() < .5); self.auth = self.kind == 'authentication' or self.tls or (self.kind != 'few' and r.random() < .4)
        self.bare = r.random() < .3; self.quiet = r.random() < .7 and self.kind != 'ring'; self.n = r.randint(4, 12); self.delay = r.choice([0, 5, 20, 60]); self.secs = r.uniform(1.5, 3.5); self.drop = r.choice([0, .002, .02]); self.refuse = r.choice([0, 0, .05, .3]); self.max = r.randint(3, 6) if self.kind == 'few' else 30
        self.dir = tmp + '/case'; shutil.rmtree(self.dir, ignore_errors=True); os.makedirs(self.dir)
    def cnt(self, k, n=1):
        with self.lk: self.stat[k] = self.stat.get(k, 0) + n
    def udp(self): s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM); s.bind(('127.0.0.1', 0)); return s
    def free(self):
        """a port nobody else uses: below those the system gives out, each worker has its own"""
        while True:
            Case.next += 1; p = 12000 + self.j * 2000 + Case.next % 2000
            s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            try: s.bind(('', p)); return p
            except OSError: pass
            finally: s.close()
    def start(self):
        self.ls = []
        self.full = []
        for _ in range(2):
            s = socket.socket(); s.bind(('127.0.0.1', 0))
            if self.stall == 'read': s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
            s.listen(0 if self.stall == 'connect' else 60); self.ls.append(s)
            if self.stall == 'connect': # nothing is accepted and there is no room for another connection
                for _ in range(4): x = socket.socket(); x.setblocking(False); x.connect_ex(s.getsockname()); self.full.append(x)
        self.own = []; self.cs = [self.udp() for _ in range(self.n)]; self.q = self.udp(); self.f = self.udp(); self.own = [[s, self.udp()] for s in self.cs]; self.port = self.free(); mp = self.free()
        c = dict(GatewayID='1', GatewayName='GW', MaxNumberOfClients=str(self.max), KeepAlive='2', BrokerName='localhost' if self.tls else '127.0.0.1', BrokerPortNo=str(self.ls[0].getsockname()[1]), BrokerSecurePortNo=str(self.ls[1].getsockname()[1]), AggregatingGateway='YES' if self.agg else 'NO', Forwarder='YES', PredefinedTopic='NO' if self.bare else 'YES', PredefinedTopicList=self.dir + '/topics.conf', ClientAuthentication='YES' if self.auth else 'NO', ClientsList=self.dir + '/clients.conf', GatewayPortNo=str(self.port), MulticastPortNo=str(mp), MulticastIP='225.1.1.1', MulticastTTL='1', ShearedMemory='YES' if self.kind == 'ring' else 'NO')
        c['QoS-1'] = 'NO' if self.bare else 'YES'
        if self.tls: c['RootCAfile'] = self.certs.dir + '/ca.pem'; c['RootCApath'] = self.certs.dir + '/hash'
        sec = lambda: ',secureConnection' if self.tls and self.r.random() < .7 else ''
        open(self.dir + '/clients.conf', 'w').write(''.join('c%d,127.0.0.1:%d%s\n' % (i, s.getsockname()[1], sec()) for i, s in enumerate(self.cs)) + 'q1,127.0.0.1:%d%s,QoS-1\nfw,127.0.0.1:%d,forwarder\n' % (self.q.getsockname()[1], sec(), self.f.getsockname()[1]))
        open(self.dir + '/topics.conf', 'w').write('*,pre,1\nc1,mine,2\n')
        open(self.dir + '/gateway.conf', 'w').write(''.join('%s=%s\n' % kv for kv in c.items()))
        env = dict(os.environ); env.update(TSAN_OPTIONS='log_path=%s/report' % self.dir, VERIF_DELAY=str(self.delay), VERIF_SEED=str(self.seed & 0xffffffff), VERIF_QUIET=str(int(self.quiet)), VERIF_OUT=self.dir + '/out'); env.pop('LD_PRELOAD', None); env.pop('VERIF_SMALL', None)
        if self.stall == 'read': env['VERIF_SMALL'] = '1'
        self.log = open(self.dir + '/log', 'wb'); self.p = subprocess.Popen([self.exe, '-f', self.dir + '/gateway.conf'], stdout=self.log, stderr=self.log, cwd=self.dir, env=env)
        end = time.time() + 30; up = False
        while time.time() < end and self.p.poll() is None and not up: # the sensor port is bound when the packet tasks are ready
            time.sleep(.05); s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            try: s.bind(('127.0.0.1', self.port))
            except OSError: up = True
            s.close()
        return up
    def broker(self, s, tls):
        r = random.Random()
        try:
            if self.stall == 'handshake':
                while not self.over: time.sleep(.1)
                s.close(); return
            if tls: s.settimeout(5); s = self.certs.ctx.wrap_socket(s, server_side=True); self.cnt('tls_connections')
            c = Conn(s)
            while not self.over:
                p = c.recv(1)
                if p is None:
                    if c.closed: break
                    continue
                t = p[0] >> 4; self.cnt('mqtt_packets')
                if r.random() < self.drop: self.cnt('broker_drops'); break
                if self.stall == 'read' and t == 3 and r.random() < .1:
                    self.cnt('stalled_connections')
                    while not self.over: time.sleep(.1)
                    break
                if t == 1:
                    rej = r.random() < self.refuse; c.send(0x20, b'\0\5' if rej else b'\0\0')
                    if rej: self.cnt('connack_rejections')
                    if rej and r.random() < .5: break
                elif t == 3:
                    q = (p[0] >> 1) & 3; n = struct.unpack('>H', p[1][:2])[0]; top = p[1][2:2 + n]; d = p[1][2 + n:]
                    if q: c.send(0x40 if q == 1 else 0x50, d[:2]); d = d[2:]
                    with self.lk: l = [x for x, f in self.subs.items() if top in f]
                    for x in l:
                        self.cnt('publishes_to_gateway')
                        try: x.send(*mpub(top, d, q, r.randint(1, 65535)))
                        except (OSError, ValueError): pass
                elif t == 8:
                    n = struct.unpack('>H', p[1][2:4])[0]
                    with self.lk: self.subs.setdefault(c, set()).add(p[1][4:4 + n])
                    c.send(0x90, p[1][:2] + p[1][4 + n:5 + n])
                elif t == 10: c.send(0xb0, p[1][:2])
                elif t == 6: c.send(0x70, p[1][:2])
                elif t == 5: c.send(0x62, p[1][:2])
                elif t == 12: c.send(0xd0, b'')
                elif t == 14: break
            with self.lk: self.subs.pop(c, None)
        except (OSError, ValueError, IndexError, struct.error): pass
        try: s.close()
        except OSError: pass
    def accept(self):
        while not self.over: # a connection is answered as long as the gateway runs, unless a stalled broker is the case
            if self.stall == 'connect': time.sleep(.1); continue
            for s in select.select(self.ls, [], [], .3)[0]:
                c, _ = s.accept(); self.cnt('broker_connections'); threading.Thread(target=self.broker, args=(c, s is self.ls[1]), daemon=True).start()
    def client(self, i, via):
        r = random.Random(self.seed * 31 + i); s = self.f if via else self.cs[i]; name = b'c%d' % i; tid = 1; mid = 0; wrap = b'%02d' % i
        def send(t, b=b''):
            d = pkt(t, b)
            if via: d = bytes([3 + len(wrap), 0xfe, 1]) + wrap + d
            try: s.sendto(d, ('127.0.0.1', self.port))
            except OSError: pass
            self.cnt('sn_packets_to_gateway')
        send(4, bytes([4, 1]) + struct.pack('>H', 60) + name)
        while time.time() < self.end:
            d = None
            if select.select([s], [], [], r.choice([.001, .004, .02, .06]))[0]:
                try: s.settimeout(.1); d = s.recv(65536)
                except OSError: d = None
            if d and via and len(d) > 3 and d[1] == 0xfe: d = d[d[0]:]
            if d and len(d) >= 2:
                t, b = (d[3], d[4:]) if d[0] == 1 and len(d) > 3 else (d[1], d[2:]); self.cnt('sn_packets_from_gateway')
                if t == 6: send(7, b'\0wt')
                elif t == 8: send(9, b'wm')
                elif t == 10: send(11, b[:4] + b'\0')
                elif t == 11: tid = struct.unpack('>H', b[:2])[0]
                elif t == 12:
                    q = (b[0] >> 5) & 3
                    if q == 1: send(13, b[1:5] + b'\0')
                    elif q == 2: send(15, b[3:5])
                elif t == 15: send(16, b[:2])
                elif t == 16: send(14, b[:2])
            k = r.random(); mid = mid % 60000 + 1; m = struct.pack('>H', mid)
            if self.stall == 'read' and k < .9: send(12, b'\2ab' + m + b'x' * 900); continue
            if k < .3: send(12, bytes([r.randint(0, 2) << 5]) + struct.pack('>H', tid) + m + b'x' * r.randint(0, 50))
            elif k < .35: send(12, bytes([r.randint(0, 2) << 5 | 2]) + b'ab' + m + b'y')
            elif k < .40: send(12, bytes([r.randint(0, 3) << 5 | 1]) + b'\0\1' + m + b'z')
            elif k < .5: send(10, b'\0\0' + m + b't%d' % r.randint(0, 6))
            elif k < .6: send(18, bytes([r.randint(0, 2) << 5]) + m + b't%d' % r.randint(0, 6))
            elif k < .63: send(20, b'\0' + m + b't%d' % r.randint(0, 6))
            elif k < .66: send(0x16)
            elif k < .68: send(0x18, b'\0\2')
            elif k < .70: send(0x16, name)
            elif k < .72: send(0x18)
            elif k < .78:
                if not via and not self.auth and r.random() < .3: s = r.choice(self.own[i]) # from another address
                if via and r.random() < .3: wrap = b'%02d' % r.randint(i, i + 40) # moved to another node
                send(4, bytes([r.choice([0, 4, 8, 12]), 1]) + struct.pack('>H', 60) + name)
            elif k < .79: send(1, b'\0')
            elif k < .80: send(r.randint(0, 0x20), bytes(r.randint(0, 255) for _ in range(r.randint(0, 8))))
            elif k < .81 and not via:
                try: self.q.sendto(pkt(12, bytes([3 << 5 | 1]) + b'\0\1\0\0' + b'm'), ('127.0.0.1', self.port)); self.cnt('sn_packets_to_gateway')
                except OSError: pass
            elif k < .812: time.sleep(.4)
    def run(self):
        """None when the gateway did not start (a port was taken)"""
        if not self.start():
            rc = self.p.poll(); self.kill(); self.close(); self.cnt('starts_refused'); self.end = 0; self.over = True
            self.reports(rc)
            return bool(self.msgs)
        self.end = time.time() + self.secs; nf = self.r.choice([1, 1, self.n // 2]); ts = [threading.Thread(target=self.accept, daemon=True)]
        ts += [threading.Thread(target=self.client, args=(i, i >= self.n - nf), daemon=True) for i in range(self.n)]
        for t in ts: t.start()
        if self.r.random() < .3: time.sleep(self.secs * self.r.random()); self.cnt('stopped_under_load')
        else:
            for t in ts[1:]: t.join()
        rc = self.p.poll()
        if rc is None:
            self.p.send_signal(signal.SIGINT)
            try: t0 = time.time(); rc = self.p.wait(60); self.cnt('stops'); self.cnt('stops_ms', int(1000 * (time.time() - t0)))
            except subprocess.TimeoutExpired: self.msgs.append('the gateway did not end within 60 s after SIGINT: its threads wait for each other')
        elif rc >= 0: self.msgs.append('the gateway ended by itself with %d: %s' % (rc, open(self.dir + '/log', 'rb').read()[-300:].decode('latin1')))
        self.kill(); self.over = True; self.end = 0
        for t in ts: t.join()
        self.close(); self.reports(rc); return True
    def kill(self):
        if self.p.poll() is None: self.p.kill(); self.p.wait()
        self.log.close()
    def close(self):
        for s in self.ls + self.full + [x for l in self.own for x in l] + [self.q, self.f]: s.close()
    def reports(self, rc):
        if rc is not None and rc < 0: self.msgs.append('the gateway was ended by signal %d' % -rc)
        if self.only: return
        text = ''.join(open(f, errors='replace').read() for f in sorted(glob.glob(self.dir + '/report.*')))
        for rep in text.split('==================')[1:]:
            m = re.search(r'(?:WARNING|ERROR): ThreadSanitizer: (.*?) (?:\(pid|on address)', rep)
            if not m: continue
            self.cnt('reports')
            if not re.search(r'race|lock-order|mutex|heap-use|SEGV|deadly', m.group(1)): continue
            if 'Location is file descriptor' in rep: self.cnt('descriptor_reports_ignored'); continue # close() while another thread is in send(): the number is not used again before both have ended
            fr = []
            for st in re.split(r'\n\n', rep):
                fs = [re.sub(r'<[^<>]*>|\(.*$', '', re.search(r'#\d+ (.*)$', l).group(1)).strip().split(' /')[0] for l in st.split('\n') if re.match(r'\s+#\d', l)]
                fs = [f for f in fs if not re.match(r'__wrap_|pthread_|sem_|operator |std::|_?_?tsan|mem|str|vs?n?printf|localtime', f)] or fs
                if fs: fr.append(' < '.join(fs[:3]))
            self.msgs.append('%s: %s' % (m.group(1), ' | '.join(fr[:2]))); self.rep = getattr(self, 'rep', '') + rep
def worker(a, j, out):
    tmp = tempfile.mkdtemp(prefix='verif-threads-'); t0 = time.time(); n = 0; counters = {}; seen = set(); viol = []; samples = []; starts = 0
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(1))
    try:
        certs = Certs(tmp)
        for k in range(j, a.cases, a.jobs):
            if time.time() - t0 > a.max_sec and n: break
            seed = int.from_bytes(hashlib.sha256(b'%d/%d' % (a.seed, k)).digest()[:6], 'big') if a.case_seed is None else a.case_seed
            c = Case(a.exe, seed, tmp, certs, j, a.scenario == 'stalled')
            if not c.run():
                starts += 1
                if starts > 5: viol.append((c.kind, seed, ['the gateway does not start: ' + open(c.dir + '/log', 'rb').read()[-300:].decode('latin1')], '')); n += 1; break
                continue
            n += 1; c.cnt('runs_' + c.kind); c.cnt('runs_without_log', int(c.quiet))
            try:
                for l in open(c.dir + '/out'):
                    w = l.split()
                    if w[0] == 'seen': seen |= set(w[1:])
                    else: c.cnt(w[0], int(w[1]))
            except OSError: c.cnt('runs_without_record')
            for k2, v in c.stat.items(): counters[k2] = counters.get(k2, 0) + v
            if c.msgs: viol.append((c.kind, seed, c.msgs, getattr(c, 'rep', '')))
            if len(samples) < 2: samples.append('%s gateway, %d clients, delays at %d per mille, %.1f s: %s' % (c.kind, c.n, c.delay, c.secs, ' '.join('%s=%d' % kv for kv in sorted(c.stat.items()))))
            if viol and len(viol) >= 3: break
    finally: shutil.rmtree(tmp, ignore_errors=True)
    json.dump(dict(n=n, counters=counters, seen=sorted(seen), viol=viol, samples=samples), open(out, 'w'))
def main():
    p = argparse.ArgumentParser(); p.add_argument('exe')
    for o, d in (('scenario', 'threads'), ('out', None), ('replay-dir', None)): p.add_argument('--' + o, default=d)
    for o, d in (('seed', 1), ('cases', 8), ('jobs', 8), ('case-seed', None)): p.add_argument('--' + o, type=int, default=d)
    p.add_argument('--max-sec', type=float, default=60); p.add_argument('--worker', type=int); a = p.parse_args()
    if a.worker is not None: return worker(a, a.worker, a.out)
    if a.case_seed is not None: a.jobs = 1; a.cases = 5 # real threads: the same situation again, not the same schedule
    tmp = tempfile.mkdtemp(prefix='verif-threads-'); res = dict(n=0, counters={}, seen=set(), viol=[], samples=[])
    try:
        ps = []
        for j in range(a.jobs): o = '%s/%d' % (tmp, j); ps.append((o, subprocess.Popen([sys.executable, os.path.abspath(__file__), a.exe, '--worker', str(j), '--scenario', a.scenario, '--seed', str(a.seed), '--cases', str(a.cases), '--jobs', str(a.jobs), '--max-sec', str(a.max_sec), '--out', o] + (['--case-seed', str(a.case_seed)] if a.case_seed is not None else []))))
        for o, pr in ps:
            if pr.wait() or not os.path.exists(o): print('worker failed', file=sys.stderr); return 3
            d = json.load(open(o)); res['n'] += d['n']; res['viol'] += d['viol']; res['samples'] += d['samples']; res['seen'] |= set(d['seen'])
            for k, v in d['counters'].items(): res['counters'][k] = res['counters'].get(k, 0) + v
    finally: shutil.rmtree(tmp, ignore_errors=True)
    out = []
    for kind, seed, msgs, rep in res['viol']:
        f = ''
        if a.replay_dir:
            os.makedirs(a.replay_dir, exist_ok=True); f = '%s/threads-%d.txt' % (a.replay_dir, seed); open(f, 'w').write('kit %s --case-seed %d\n' % (a.scenario, seed) + '\n'.join(msgs) + '\n' + rep[:200000])
        out += [dict(tag='', msg='%s gateway, seed %d: %s' % (kind, seed, m), replay=f) for m in dict.fromkeys(msgs)]
        for m in dict.fromkeys(msgs): print(kind, seed, m)
    c = res['counters']; ev = c.get('locks', 0) + c.get('semaphore_posts', 0) + c.get('semaphore_waits', 0) + c.get('stream_receives', 0) + c.get('stream_sends', 0)
    if a.scenario == 'stalled': ev = c.get('stops', 0)
    if a.out: json.dump(dict(cases=res['n'], counters=c, edges=0, edges_total=0, evals=ev, distinct=len(res['seen']), samples=res['samples'][:3], violations=out), open(a.out, 'w'))
    print(res['n'], 'runs', ev, 'operations', len(res['seen']), 'interleavings', c)
    return 1 if out else 0
if __name__ == '__main__': sys.exit(main())
