"""Planted changes; see seed.py."""
IMP = 'import sys, os\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demolib import *\n'
SEEDS = []
def S(id, prop, edits, needs, breaks, demo, **k): SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=IMP + demo, **k))
R = 'src/rrdp.rs'; P = 'src/process.rs'; Y = 'src/rsync.rs'; F = 'src/fetch.rs'; O = 'src/file_ops.rs'; C = 'src/config.rs'; M = 'src/main.rs'; W = 'src/validation/validator.rs'

S('c01-serial-width', 'C01', [(R, 'match snapshot.serial().cmp(&notification_file.serial()) {', 'match (snapshot.serial() as u32).cmp(&(notification_file.serial() as u32)) {')],
  'serial numbers that differ by a multiple of 2^32 or cross 2^32', 'a source that advanced is reported as having nothing to do', '''
m = Mirror()
m.serve(1, 5); check(m.run() == 0, m.err)
m.serve(1, 5 + (1 << 32)); check(m.run() == 0, m.err)
check(m.published()[1] == 5 + (1 << 32), 'the newer serial was not published: %s' % (m.published(),))
''')
S('c02-large-leftover', 'C02', [(F, 'if !hash.matches(&existing) {', 'if existing.len() < 1 << 20 && !hash.matches(&existing) {')],
  'a staged file of more than 1 MiB left over from a run that did not publish, and a source that meanwhile lists other content for that place', 'a left over file is published without having the listed hash', '''
m = Mirror()
m.put('other', b'x')
big = snapshot(1, 1, [('rsync://h/m/a.cer', os.urandom(900000))])
m.serve(1, 1, snap=big, snappath='snap.xml')
sc = m.root + '/no.sh'; open(sc, 'w').write('#!/bin/sh\\nexit 1\\n'); os.chmod(sc, 0o755)
check(m.run('--tal-reject-invalid', '--pre-validate', sc) != 0, 'rejected run succeeded')
new = snapshot(2, 1, [('rsync://h/m/a.cer', os.urandom(900000))])
m.serve(2, 1, snap=new, snappath='snap.xml')
check(m.run() == 0, m.err)
check(sha(m.files()['snap.xml']) == sha(new), 'published snapshot does not have the listed hash')
''')
S('c03-copied-notification', 'C03', [(R, '        fs::rename(&path_tmp, &path_final).with_context(|| {', '        fs::copy(&path_tmp, &path_final).and_then(|_| fs::remove_file(&path_tmp)).with_context(|| {')],
  'a reader, or an interruption, while the notification is being replaced', 'the public notification is overwritten in place instead of replaced in one step', '''
m = Mirror()
m.serve(1, 1); check(m.run() == 0, m.err)
old = open(m.rrdp + '/notification.xml', 'rb')
m.serve(1, 2); check(m.run() == 0, m.err)
# a reader that opened the file before sees the old one
b = old.read()
check(b'serial="1"' in b and b'serial="2"' not in b, 'the published notification was written to in place')
''')
S('c04-no-deltas-cutoff', 'C04', [(R, '.unwrap_or_else(|| notification_file.serial());', '.unwrap_or_default();')],
  'a source that, within a session, stops listing deltas', 'deltas which the source does not list any more stay in the published list, which then has a gap to the published serial', '''
m = Mirror()
m.serve(1, 2, deltas=[1, 2]); check(m.run() == 0, m.err)
m.serve(1, 4); check(m.run() == 0, m.err)
p = m.published()
check(p[1] == 4 and p[3] == [], 'published deltas %s for serial %d, the source lists none' % (p[3], p[1]))
''')
S('c05-reset-forgets', 'C05', [(R, '        for delta in &self.deltas {\n            let path = self.mappings.path(delta.rel_path());\n            self.deprecated_files.push(DeprecatedFile::new(path));\n        }\n        self.deltas = vec![];', '        // files are removed together with the snapshot of their session\n        self.deltas = vec![];')] if False else
  [(R, '            self.deltas_deprecate_all()\n', '            self.deltas_deprecate_before(self.snapshot.as_ref().map(|s| s.serial()).unwrap_or(u64::MAX));\n            self.deltas.clear()\n')],
  'a session reset to a session with a lower serial while deltas above it are held, and a later clean-up', 'deltas of the abandoned session are never scheduled for clean-up', '''
m = Mirror()
m.serve(1, 9, deltas=[7, 8, 9]); check(m.run(cleanup=0) == 0, m.err)
m.serve(2, 3, deltas=[3]); check(m.run(cleanup=0) == 0, m.err)
m.serve(2, 4, deltas=[3, 4]); check(m.run(cleanup=0) == 0, m.err)
m.serve(2, 5, deltas=[4, 5]); check(m.run(cleanup=0) == 0, m.err)
left = [f for f in m.files() if f.startswith(sid(1))]
check(not left, 'never removed: %s' % left)
''')
S('c06-decoded', 'C06', [(R, '            .map(|s| s.to_string())\n', '            .map(|s| s.replace("%2E", ".").replace("%2e", ".").replace("%2F", "/").replace("%2f", "/"))\n')],
  'a source that lists percent encoded dots in a URI', 'a downloaded file is placed outside the configured directories', '''
m = Mirror()
sn = snapshot(1, 1, [])
# where the URI maps to, taken literally and decoded
for p in ('%2e%2e/out/x.xml',): m.put(p, sn)
m.put('notification.xml', notification(1, 1, ('%2e%2e/out/x.xml', sn), []))
m.run()
check(not os.path.exists(m.root + '/out') and not os.path.exists(m.state + '/out'), 'written outside the RRDP directory')
''')
S('c07-early-clean', 'C07', [(P, '    let staged = match rrdp_state.update_staged(config)? {\n', '    rrdp_state.clean(config)?;\n\n    let staged = match rrdp_state.update_staged(config)? {\n')],
  'a run that fails or finds nothing new at a time when files are due for clean-up', 'a run that does not publish removes files from the RRDP directory', '''
m = Mirror()
m.serve(1, 1); check(m.run(cleanup=2) == 0, m.err)
m.serve(1, 2); check(m.run(cleanup=2) == 0, m.err)
before = m.files(); time.sleep(3.1)
check(m.run(cleanup=2) == 0, m.err)
check(m.files() == before, 'a run without news changed the RRDP directory')
''')
S('c08-last-script', 'C08', [(P, '                let output = Command::new(script).output()?;\n', '                let output = Command::new(script).output()?;\n                issues = !output.status.success();\n'), (P, '                    issues = true;\n\n', '')],
  'two scripts of which the first fails and the last succeeds, with rejection enabled', 'a failing script does not prevent publication', '''
m = Mirror()
m.serve(1, 1)
for n, c in (('no', 1), ('yes', 0)):
    open(f'{m.root}/{n}.sh', 'w').write(f'#!/bin/sh\\nexit {c}\\n'); os.chmod(f'{m.root}/{n}.sh', 0o755)
r = m.run('--tal-reject-invalid', '--pre-validate', m.root + '/no.sh', '--pre-validate', m.root + '/yes.sh')
check(r != 0 and not os.path.exists(m.rrdp + '/notification.xml'), 'published although a script failed')
''')
S('c09-partial-tree', 'C09', [(Y, '    writer.for_snapshot_path(&snapshot_path)?;\n', '    if let Err(e) = writer.for_snapshot_path(&snapshot_path) {\n        error!("Could not write all objects: {e}");\n    }\n')],
  'an error while writing the tree, here an object that cannot be placed because another one is named like its directory', "'current' is switched to a tree that does not hold all objects of the snapshot", '''
m = Mirror()
m.serve(1, 1, objs=[('rsync://h/m/a.cer', b'1')]); check(m.run() == 0, m.err)
t = os.readlink(m.rsync + '/current')
m.serve(1, 2, objs=[('rsync://h/m/b', b'2'), ('rsync://h/m/b/c.cer', b'3'), ('rsync://h/m/d.cer', b'4')]); r = m.run()
check(r != 0, 'the run succeeded'); check(os.readlink(m.rsync + '/current') == t, 'current is an incomplete tree')
''')
S('c10-failed-removal', 'C10', [(Y, '                std::fs::remove_dir_all(&path).with_context(|| {\n                    format!(\n                        "Could not remove rsync dir for old revision at: {}",\n                        path.display()\n                    )\n                })?;', '                if let Err(e) = std::fs::remove_dir_all(&path) {\n                    error!(\n                        "Could not remove rsync dir for old revision at: {}, error: {}",\n                        path.display(),\n                        e\n                    );\n                }')],
  'a removal that fails, for example for lack of permission', 'a tree that could not be removed is forgotten and stays for ever', '''
# as an unprivileged user: root ignores permissions
import subprocess
os.chmod(ROOT, 0o777)
m = Mirror(); os.chmod(m.root, 0o777); os.chmod(m.src, 0o777)
b = m.root + '/ks'; shutil.copy(BIN, b); os.chmod(b, 0o755)
def run():
    for r, ds, fs in os.walk(m.src): os.chmod(r, 0o755)
    a = m.args(cleanup=0); a[0] = b
    return subprocess.run(a, cwd=m.root, user=65534, group=65534, extra_groups=[], capture_output=True).returncode
m.serve(1, 1, objs=[('rsync://h/m/d/a.cer', b'1')]); check(run() == 0, 'run 1')
t = m.rsync + '/' + os.readlink(m.rsync + '/current'); os.chmod(t + '/d', 0o555)
m.serve(1, 2); run(); time.sleep(1.1)
m.serve(1, 3); run()
os.chmod(t + '/d', 0o755); time.sleep(1.1)
m.serve(1, 4); check(run() == 0, 'run 4'); time.sleep(1.1)
m.serve(1, 5); check(run() == 0, 'run 5')
check(not os.path.exists(t), 'the tree is never removed')
''')
S('c11-lock-dropped', 'C11', [(M, '    let _lock_file = lock(&config)?;\n    process(&config)', '    if let Ok(_lock_file) = lock(&config).map_err(|e| debug!("no lock: {e}")) {\n        debug!("got lock");\n    } else {\n        return Err(anyhow!("another krill-sync process is running"));\n    }\n    process(&config)')],
  'two runs on one state directory at the same time', 'the lock is released before the run begins, a second instance works on the same state', '''
import threading
m = Mirror(); m.serve(1, 1)
sc = m.root + '/slow.sh'; open(sc, 'w').write('#!/bin/sh\\ntouch %s/started\\nsleep 4\\n' % m.root); os.chmod(sc, 0o755)
p = subprocess.Popen(m.args('--pre-validate', sc), cwd=m.root, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
for i in range(200):
    if os.path.exists(m.root + '/started'): break
    time.sleep(.05)
check(os.path.exists(m.root + '/started'), 'no start')
r = m.run(); p.wait()
check(r != 0, 'a second instance ran while the first one was working')
''')
S('c12-no-truncation', 'C12', [(O, '    std::fs::File::create(file_path)\n', '    std::fs::OpenOptions::new()\n        .write(true)\n        .create(true)\n        .open(file_path)\n')],
  'a longer temporary file left by an interrupted run', 'the state file ends with the tail of an older one and cannot be loaded any more', '''
m = Mirror()
m.serve(1, 1, deltas=[1]); check(m.run() == 0, m.err)
# a run was interrupted before it could rename its temporary file
t = open(m.state + '/rsync-state.json', 'rb').read()
open(m.state + '/rsync-state.tmp', 'wb').write(t + b' ' * 100 + t + b' ' * 1000 + t)
m.serve(1, 2, deltas=[1, 2]); check(m.run() == 0, m.err)
try: j = json.load(open(m.state + '/rsync-state.json'))
except ValueError as x: check(False, 'torn state: %s' % x)
m.serve(1, 3, deltas=[2, 3]); check(m.run() == 0, m.err)
''')
S('c13-hostname', 'C13', [(F, '                    .danger_accept_invalid_hostnames(mode.accept_insecure())\n', '                    .danger_accept_invalid_hostnames(mode.accept_insecure() || etag.is_none())\n')],
  'a server with a trusted certificate for another host name, asked without an ETag', 'a certificate for another host is accepted without --insecure', '''
import ssl, threading, http.server
os.chdir(ROOT)
def sh(c): subprocess.run(c, shell=True, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
sh('openssl req -x509 -newkey rsa:2048 -nodes -keyout ca.key -out ca.pem -days 2 -subj /CN=democa')
sh('openssl req -newkey rsa:2048 -nodes -keyout s.key -out s.csr -subj /CN=other.example')
open('x', 'w').write('subjectAltName=DNS:other.example\\n')
sh('openssl x509 -req -in s.csr -CA ca.pem -CAkey ca.key -CAcreateserial -days 2 -extfile x -out s.pem')
m = Mirror(); m.serve(1, 1)
class H(http.server.SimpleHTTPRequestHandler):
    def __init__(s, *a, **k): super().__init__(*a, directory=m.src, **k)
    def log_message(s, *a): pass
srv = http.server.ThreadingHTTPServer(('127.0.0.1', 0), H)
cx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER); cx.load_cert_chain('s.pem', 's.key')
srv.socket = cx.wrap_socket(srv.socket, server_side=True)
threading.Thread(target=srv.serve_forever, daemon=True).start()
r = m.run(source='https://localhost:%d/' % srv.server_port, env=dict(SSL_CERT_FILE=ROOT + '/ca.pem', no_proxy='*'))
check(r != 0 and not os.path.exists(m.rrdp), 'content was fetched from a server whose certificate names another host')
check(m.run('--insecure', source='https://localhost:%d/' % srv.server_port, env=dict(SSL_CERT_FILE=ROOT + '/ca.pem', no_proxy='*')) == 0, m.err)
''')
S('c18-known-extensions', 'C18', [(Y, '    } else {\n        // Try to parse this as a generic RPKI signed object', '    } else if !path_str.ends_with(".roa") && !path_str.ends_with(".mft") && !path_str.ends_with(".gbr") {\n        return;\n    } else {\n        // Try to parse this as a generic RPKI signed object')],
  'a signed object with another extension', 'its file gets the time of writing instead of its signing time', '''
import glob
x = open('test-resources/rrdp-rev2658/e9be21e7-c537-4564-b742-64700978c6b4/2658/rnd-sn/snapshot.xml').read()
roa = base64.b64decode(re.search(r'uri="[^"]*AS40224.roa"[^>]*>([^<]*)<', x).group(1))
m = Mirror(); m.serve(1, 1, objs=[('rsync://h/m/a.asa', roa)]); check(m.run() == 0, m.err)
t = os.stat(m.rsync + '/current/a.asa').st_mtime
check(int(t) == 1620657533, 'time of the file: %s' % t)
''')
S('c19-both-defaults', 'C19', [(C, '    if config.state_dir != Path::new(DEFAULT_STATE_DIR) {\n        if config.rrdp_dir == Path::new(DEFAULT_RRDP_DIR) {', '    if config.state_dir != Path::new(DEFAULT_STATE_DIR)\n        && config.rrdp_dir.parent() == config.rsync_dir.parent()\n    {\n        if config.rrdp_dir == Path::new(DEFAULT_RRDP_DIR) {')],
  'a state directory and one of the two other directories set, the other one left at its default', 'the directory left at its default does not follow the state directory', '''
import subprocess
os.chmod(ROOT, 0o777)
m = Mirror(); os.chmod(m.root, 0o777); m.serve(1, 1)
for r, ds, fs in os.walk(m.src): os.chmod(r, 0o755)
b = m.root + '/ks'; shutil.copy(BIN, b); os.chmod(b, 0o755)
a = [b, '--state-dir', m.state, '--rrdp-dir', m.rrdp, '--source-uri-base', m.src + '/', '--', BASE + m.name]
# unprivileged: the default place is not writable
r = subprocess.run(a, cwd=m.root, user=65534, group=65534, extra_groups=[], capture_output=True)
check(r.returncode == 0 and os.path.exists(m.state + '/rsync/current'), 'rsync tree is not below the state directory: %s' % r.stderr[-300:])
''')
S('c20-script-output', 'C20', [(P, '                        from_utf8(&output.stderr).unwrap_or("could not parse stderr output");', '                        from_utf8(&output.stderr).expect("stderr output is UTF-8");')],
  'a failing script that prints something other than UTF-8', 'the run panics', '''
m = Mirror(); m.serve(1, 1)
sc = m.root + '/x.sh'; open(sc, 'w').write("#!/bin/sh\\nprintf '\\\\377\\\\376' >&2\\nexit 1\\n"); os.chmod(sc, 0o755)
r = m.run('--pre-validate', sc)
check('panicked' not in m.err and r == 0, m.err[-300:])
''')
