"""Runs the check of every planted bug on a copy of /repo with the bug applied and writes the table of DESIGN.md section 6.

    python3 tools/seeded_table.py [--only id,id] [--table]

Results are kept in seeded/RESULTS.json so that --table can rewrite the table without running anything.
"""
import argparse, json, os, re, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
RES = os.path.join(S, 'RESULTS.json')


def run(bug):
    prop = json.load(open(os.path.join(S, bug, 'meta.json')))['property']
    w = tempfile.mkdtemp(prefix='seeded-')
    try:
        shutil.copytree('/repo', w + '/repo', symlinks=True)
        subprocess.run(['git', '-C', w + '/repo', 'apply', os.path.join(S, bug, 'patch.diff')], check=True)
        env = dict(os.environ, VERIF_REPO=w + '/repo', VERIF_NO_EVIDENCE='1', VERIF_SEED='1', VERIF_TIER='quick')
        p = subprocess.run(['python3', os.path.join(V, 'run.py'), prop], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        seen = sorted(set('{0} [{1}]'.format(a, b) for a, b in re.findall(r'^  ([a-z_0-9]+)#\d+ \[([^\]]*)\]', p.stdout, re.M)))
        return {'check': prop, 'rc': p.returncode, 'monitors': seen[:3]}
    finally:
        shutil.rmtree(w)


def main():
    a = argparse.ArgumentParser()
    a.add_argument('--only', default='')
    a.add_argument('--table', action='store_true')
    a = a.parse_args()
    res = json.load(open(RES)) if os.path.exists(RES) else {}
    bugs = sorted(d for d in os.listdir(S) if os.path.isdir(os.path.join(S, d)))
    if not a.table:
        for b in (a.only.split(',') if a.only else bugs):
            res[b] = run(b)
            print(b, res[b], flush=True)
            json.dump({k: res[k] for k in sorted(res) if k in bugs}, open(RES, 'w'), indent=1, sort_keys=True)
    rows = ['| bug | needs | caught by |', '|-----|-------|-----------|']
    for b in bugs:
        m = json.load(open(os.path.join(S, b, 'meta.json')))
        r = res.get(b)
        how = m['property'] if r is None else 'missed' if r['rc'] != 1 else '{0}: {1}'.format(r['check'], ', '.join(r['monitors']) or 'yes')
        rows.append('| {0} | {1} | {2} |'.format(b, ' '.join(m['needs'].split()).replace('|', '/'), how.replace('|', '/')))
    p = os.path.join(V, 'DESIGN.md')
    t = open(p).read()
    head = t.split('<!-- table -->')[0]
    open(p, 'w').write(head + '<!-- table -->\n' + '\n'.join(rows) + '\n')
    caught = sum(1 for b in bugs if res.get(b, {}).get('rc') == 1)
    print('{0} bugs, {1} caught'.format(len(bugs), caught))


if __name__ == '__main__':
    main()
