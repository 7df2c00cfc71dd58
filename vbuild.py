"""Builds the harnesses from /repo's current working tree, into /verif/build (ignored by git).
Objects are cached under a key made of the compiler command and the contents of every file the
translation unit can include (the whole source set), so an unchanged tree is not recompiled and a changed
one always is."""
import hashlib, os, subprocess, sys, shutil, glob, time
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))
GW = REPO + '/MQTTSNGateway/src'
PK = REPO + '/MQTTSNPacket/src'

class BuildError(Exception): pass

def _digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); 
        with open(p, 'rb') as f: h.update(f.read())
    return h

def headers():
    hs = []
    for d in (GW, PK, HERE + '/src'):
        for root, _, fs in os.walk(d):
            hs += [os.path.join(root, f) for f in fs if f.endswith(('.h', '.in'))]
    return hs

def run(cmd, cwd=None):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=cwd)
    if r.returncode: raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-6000:]))

_hdr = None
def compile_objs(units, name):
    """units: list of (source, compiler, flags). Returns object paths."""
    global _hdr
    if _hdr is None: _hdr = _digest(headers()).hexdigest()
    os.makedirs(OUT + '/obj', exist_ok=True)
    objs = []; todo = []
    for src, cc, flags in units:
        h = hashlib.sha256(); h.update(_hdr.encode()); h.update(' '.join([cc] + flags).encode())
        with open(src, 'rb') as f: h.update(f.read())
        h.update(src.encode())
        o = '%s/obj/%s-%s.o' % (OUT, os.path.basename(src).replace('.', '_'), h.hexdigest()[:24])
        objs.append(o)
        if not os.path.exists(o): todo.append((src, cc, flags, o))
        else: os.utime(o)
    def one(t):
        src, cc, flags, o = t
        tmp = o + '.%d.tmp' % os.getpid()
        run([cc] + flags + ['-c', src, '-o', tmp]); os.replace(tmp, o)
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex: list(ex.map(one, todo))
    return objs

def link(objs, cxx, flags, name):
    h = hashlib.sha256(); h.update(' '.join([cxx] + flags + objs).encode())
    exe = '%s/%s-%s' % (OUT, name, h.hexdigest()[:16])
    if not os.path.exists(exe):
        tmp = exe + '.%d.tmp' % os.getpid()
        run([cxx] + objs + flags + ['-o', tmp]); os.replace(tmp, exe)
    else: os.utime(exe)
    prune()
    return exe

def prune(keep=14 * 3600):
    """drop cached files nobody has used for a while"""
    now = time.time()
    for p in glob.glob(OUT + '/obj/*') + glob.glob(OUT + '/*-*'):
        try:
            if os.path.isfile(p) and now - os.path.getmtime(p) > keep: os.unlink(p)
        except OSError: pass

SAN = ['-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-g', '-O1']
COV = ['-fsanitize-coverage=inline-8bit-counters']
COMMON = ['MQTTGWConnectionHandler', 'MQTTGWPacket', 'MQTTGWPublishHandler', 'MQTTGWSubscribeHandler', 'MQTTSNGateway', 'MQTTSNGWBrokerRecvTask', 'MQTTSNGWBrokerSendTask', 'MQTTSNGWClient', 'MQTTSNGWClientRecvTask', 'MQTTSNGWClientSendTask', 'MQTTSNGWConnectionHandler', 'MQTTSNGWLogmonitor', 'MQTTSNGWPacket', 'MQTTSNGWPacketHandleTask', 'MQTTSNGWProcess', 'MQTTSNGWPublishHandler', 'MQTTSNGWSubscribeHandler', 'MQTTSNGWEncapsulatedPacket', 'MQTTSNGWForwarder', 'MQTTSNGWQoSm1Proxy', 'MQTTSNGWAdapter', 'MQTTSNGWAggregater', 'MQTTSNGWClientList', 'MQTTSNGWTopic', 'MQTTSNGWAdapterManager', 'MQTTSNAggregateConnectionHandler', 'MQTTSNGWMessageIdTable', 'MQTTSNGWAggregateTopicTable']
WRAPS = 'pthread_create pthread_join pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock sem_init sem_open sem_close sem_unlink sem_destroy sem_post sem_wait sem_timedwait gettimeofday clock_gettime time sleep usleep nanosleep socket bind listen accept setsockopt fcntl poll recvfrom sendto getaddrinfo freeaddrinfo connect send recv select close open ftok shmget shmat shmdt shmctl SSL_set_fd BIO_new_socket'.split()

def gw_sources():
    """every gateway source except mains, tests and the sensor networks not selected"""
    return sorted(p for p in glob.glob(GW + '/*.cpp') if os.path.basename(p) not in ('mainGateway.cpp', 'mainLogmonitor.cpp')) + [GW + '/linux/Timer.cpp', GW + '/linux/Network.cpp', GW + '/linux/Threading.cpp']

def version_inc():
    # MQTTSNGWVersion.h is generated by CMake into the source tree; supply it when it is not there
    d = OUT + '/gen'; os.makedirs(d, exist_ok=True)
    if not os.path.exists(d + '/MQTTSNGWVersion.h'):
        with open(d + '/MQTTSNGWVersion.h', 'w') as f: f.write('#ifndef MQTTSNGWVERSION_H_IN_\n#define MQTTSNGWVERSION_H_IN_\nnamespace MQTTSNGW\n{\n#define PAHO_GATEWAY_VERSION  "verif"\n}\n#endif\n')
    return ['-I' + d]

def gw_inc(sn='udp'): return ['-I' + GW, '-I' + GW + '/linux', '-I' + GW + '/linux/' + sn, '-I' + PK] + version_inc()
def packet_sources(): return sorted(glob.glob(PK + '/*.c'))

def gwsim6(): return gwsim('udp6', ['-DVERIF_V6'], 'gwsim6')
def gwsim(sn='udp', defs=[], name='gwsim'):
    cxx = ['-std=c++11', '-w'] + gw_inc(sn) + SAN + COV
    units = [(s, 'clang++', cxx) for s in gw_sources() + [GW + '/linux/%s/SensorNetwork.cpp' % sn]]
    units.append((GW + '/mainGateway.cpp', 'clang++', cxx))
    units += [(s, 'clang', ['-w', '-I' + PK] + SAN + COV) for s in packet_sources()]
    drv = ['-std=c++17', '-w', '-g', '-O1', '-fsanitize=address', '-I' + HERE + '/src'] + defs
    units += [(s, 'clang++', drv) for s in sorted(glob.glob(HERE + '/src/sim/*.cpp') + glob.glob(HERE + '/src/gw/*.cpp'))]
    objs = compile_objs(units, name)
    return link(objs, 'clang++', ['-fsanitize=address,undefined', '-pthread', '-lssl', '-lcrypto'] + ['-Wl,--wrap=' + w for w in WRAPS + ['main']], name)

def _drv(extra=[]): return ['-std=c++17', '-w', '-g', '-O1', '-fsanitize=address', '-I' + HERE + '/src'] + extra
def codec():
    units = [(s, 'clang', ['-w', '-I' + PK, '-ftrivial-auto-var-init=pattern'] + SAN + COV) for s in packet_sources()]
    units += [(s, 'clang++', _drv(['-I' + PK])) for s in (HERE + '/src/kit/kit.cpp', HERE + '/src/codec/codec.cpp')]
    return link(compile_objs(units, 'codec'), 'clang++', ['-fsanitize=address,undefined', '-pthread'], 'codec')

UNITWRAP = ['-Wl,--wrap=' + w for w in 'sem_open sem_close sem_unlink ftok shmget shmat shmdt shmctl'.split()]
def unit():
    cxx = ['-std=c++11', '-w'] + gw_inc() + SAN + COV
    units = [(s, 'clang++', cxx) for s in gw_sources() + [GW + '/linux/udp/SensorNetwork.cpp']]
    units += [(s, 'clang', ['-w', '-I' + PK] + SAN + COV) for s in packet_sources()]
    units += [(HERE + '/src/kit/kit.cpp', 'clang++', _drv()), (HERE + '/src/unit/unit.cpp', 'clang++', _drv(gw_inc()))]
    return link(compile_objs(units, 'unit'), 'clang++', ['-fsanitize=address,undefined', '-pthread', '-lssl', '-lcrypto'] + UNITWRAP, 'unit')

def logring():
    cxx = ['-std=c++11', '-w'] + gw_inc() + SAN + COV
    units = [(s, 'clang++', cxx) for s in gw_sources() + [GW + '/linux/udp/SensorNetwork.cpp']]
    units += [(s, 'clang', ['-w', '-I' + PK] + SAN + COV) for s in packet_sources()]
    units += [(HERE + '/src/kit/kit.cpp', 'clang++', _drv()), (HERE + '/src/unit/logring.cpp', 'clang++', _drv(gw_inc()))]
    return link(compile_objs(units, 'unit'), 'clang++', ['-fsanitize=address,undefined', '-pthread', '-lssl', '-lcrypto'] + ['-Wl,--wrap=' + w for w in 'sem_open sem_close sem_unlink sem_timedwait shmget shmat shmdt shmctl'.split()], 'logring')

QUEWRAP = ['-Wl,--wrap=' + w for w in 'pthread_mutex_lock pthread_mutex_unlock sem_post sem_wait sem_timedwait'.split()]
def _que(san, name):
    cxx = ['-std=c++11', '-w'] + gw_inc() + san
    units = [(s, 'clang++', cxx) for s in gw_sources() + [GW + '/linux/udp/SensorNetwork.cpp']]
    units += [(s, 'clang', ['-w', '-I' + PK] + san) for s in packet_sources()]
    units += [(HERE + '/src/kit/kit.cpp', 'clang++', ['-std=c++17', '-w', '-g', '-O1', '-I' + HERE + '/src']), (HERE + '/src/unit/que.cpp', 'clang++', ['-std=c++17', '-w', '-g', '-O1', '-I' + HERE + '/src'] + gw_inc() + san[:1])]
    return link(compile_objs(units, name), 'clang++', san[:1] + ['-pthread', '-lssl', '-lcrypto'] + QUEWRAP, name)
def quetsan(): return _que(['-fsanitize=thread', '-g', '-O1', '-fno-omit-frame-pointer'], 'quetsan')
def queasan(): return _que(SAN + COV, 'queasan')

def threads():
    """the real gateway on real threads: src/threads/drive.py runs it"""
    san = ['-fsanitize=thread', '-g', '-O1', '-fno-omit-frame-pointer']; cxx = ['-std=c++11', '-w'] + gw_inc() + san
    units = [(s, 'clang++', cxx) for s in gw_sources() if 'Logmonitor' not in s] + [(GW + '/linux/udp/SensorNetwork.cpp', 'clang++', cxx), (GW + '/mainGateway.cpp', 'clang++', cxx)]
    units += [(s, 'clang', ['-w', '-I' + PK] + san) for s in packet_sources()]
    units += [(HERE + '/src/threads/perturb.cpp', 'clang++', ['-std=c++17', '-w', '-g', '-O1'])]
    return link(compile_objs(units, 'threads'), 'clang++', san[:1] + ['-pthread', '-lssl', '-lcrypto'] + ['-Wl,--wrap=' + w for w in 'pthread_mutex_lock pthread_mutex_unlock sem_post sem_wait sem_timedwait recv send recvfrom sendto setsockopt close shmget shmat shmdt shmctl sem_open sem_close sem_unlink _ZN8MQTTSNGW7Process6putLogEPKcz'.split()], 'threads')

SERWRAP = ['-Wl,--wrap=' + w for w in 'open close read write select poll tcsetattr tcflush sem_timedwait sem_open sem_close sem_unlink ftok shmget shmat shmdt shmctl'.split()]
def _serial(sn, name):
    """the gateway with another sensor network, its serial ports simulated"""
    inc = gw_inc(sn)
    units = [(s, 'clang++', ['-std=c++11', '-w'] + inc + SAN + COV) for s in gw_sources() + [GW + '/linux/%s/SensorNetwork.cpp' % sn]]
    units += [(s, 'clang', ['-w', '-I' + PK] + SAN + COV) for s in packet_sources()]
    units += [(HERE + '/src/' + s, 'clang++', _drv(inc)) for s in ('kit/kit.cpp', 'serial/port.cpp', 'serial/%s.cpp' % name)]
    return link(compile_objs(units, name), 'clang++', ['-fsanitize=address,undefined', '-pthread', '-lssl', '-lcrypto'] + SERWRAP, name)
def xbee(): return _serial('xbee', 'xbee')
def lora(): return _serial('loralink', 'lora')
def rfcomm():
    inc = gw_inc('rfcomm')
    units = [(s, 'clang++', ['-std=c++11', '-w'] + inc + SAN + COV) for s in gw_sources() + [GW + '/linux/rfcomm/SensorNetwork.cpp']]
    units += [(s, 'clang', ['-w', '-I' + PK] + SAN + COV) for s in packet_sources()]
    units += [(HERE + '/src/' + s, 'clang++', _drv(inc)) for s in ('kit/kit.cpp', 'serial/rfcomm.cpp')]
    return link(compile_objs(units, 'rfcomm'), 'clang++', ['-fsanitize=address,undefined', '-pthread', '-lssl', '-lcrypto', '-lbluetooth'] + ['-Wl,--wrap=' + w for w in 'socket bind listen accept setsockopt send recv read write shutdown close select _ZN8MQTTSNGW7Process6putLogEPKcz'.split()], 'rfcomm')

KITS = ('codec', 'unit', 'logring', 'quetsan', 'queasan', 'xbee', 'lora', 'rfcomm', 'threads')
if __name__ == '__main__':
    t = time.time()
    for n in sys.argv[1:]: print(globals()[n](), '%.1fs' % (time.time() - t))
