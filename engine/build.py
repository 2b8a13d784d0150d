"""Compiles /repo's current source into a scratch directory and reads the bytecode."""
import os, subprocess, json, glob, sys
REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
JAVA_HOME = '/usr/lib/jvm/java-21-openjdk-amd64'
JAVA, JAVAC = JAVA_HOME + '/bin/java', JAVA_HOME + '/bin/javac'
def jars():
    out = {}
    for j in sorted(glob.glob('/root/.gradle/caches/modules-2/files-2.1/**/*.jar', recursive=True)):
        b = os.path.basename(j)
        if 'sources' in b: continue
        for k in ('vavr-', 'vavr-match', 'antlr4-', 'caffeine-', 'maven-artifact-', 'commons-lang3-', 'lombok-', 'jsr305', 'checker-qual', 'error_prone_annotations', 'antlr4-runtime-'):
            if b.startswith(k): out.setdefault(k, []).append(j)
    return sorted(set(sum(out.values(), [])))
ASM = sorted(glob.glob('/opt/veriftools/java/bytecode/asm*.jar'))
def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode: raise RuntimeError('%s\n%s' % (' '.join(cmd)[:300], r.stdout[-4000:]))
    return r.stdout
def build(scratch):
    """-> (dump, class directory, class path)"""
    cls = os.path.join(scratch, 'classes'); tool = os.path.join(scratch, 'tool')
    os.makedirs(cls, exist_ok=True); os.makedirs(tool, exist_ok=True)
    js = jars()
    lom = [j for j in js if os.path.basename(j).startswith('lombok-')][-1]
    cp = ':'.join(j for j in js if 'lombok' not in j)
    src = []
    for d, _, fs in os.walk(REPO + '/src/main/java'): src += [os.path.join(d, f) for f in fs if f.endswith('.java')]
    p1 = subprocess.Popen([JAVAC, '-g', '-nowarn', '-proc:full' if False else '-Xlint:none', '-encoding', 'UTF-8', '-cp', cp + ':' + lom, '-processorpath', lom, '-d', cls] + sorted(src), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    p2 = subprocess.Popen([JAVAC, '-nowarn', '-cp', ':'.join(ASM), '-d', tool, os.path.join(HERE, 'Dump.java')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    p3 = subprocess.Popen([JAVAC, '-nowarn', '-cp', cp, '-d', tool, os.path.join(HERE, 'Atn.java')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    for p in (p1, p2, p3):
        o = p.communicate()[0]
        if p.returncode: raise RuntimeError('javac failed\n' + o[-4000:])
    out = os.path.join(scratch, 'dump.json')
    run([JAVA, '-XX:TieredStopAtLevel=1', '-cp', ':'.join(ASM) + ':' + tool + ':' + cp, 'Dump', cls, out])
    dump = json.load(open(out))
    try:
        run([JAVA, '-XX:TieredStopAtLevel=1', '-cp', tool + ':' + cls + ':' + cp, 'Atn', out + '.atn'], timeout=60)
        dump['atn'] = json.load(open(out + '.atn'))
    except Exception as e: dump['atn'] = None
    json.dump(dump, open(out, 'w'))
    return dump, cls, cp
if __name__ == '__main__':
    import time; t = time.time(); d, c, cp = build(sys.argv[1]); print(len(d['classes']), time.time() - t)
