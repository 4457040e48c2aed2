#!/usr/bin/env python3
"""check.py PID : decides one property on /repo's current tree."""
import json, os, re, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *


def lines(path, want):
    """The lines (parsed) of an ndjson file whose id is wanted."""
    out = {}
    with open(path) as f:
        for l in f:
            d = json.loads(l)
            if d['id'] in want:
                out[d['id']] = d
    return out


def first_line(path):
    with open(path) as f:
        l = f.readline()
    return json.loads(l) if l.strip() else None


def short(x, n=160):
    s = json.dumps(x)
    return s if len(s) <= n else s[:n] + '...'


def reader(c):
    """Reader families: real Reader vs. the Inflate machine, on both word
    sizes (the bit reader has an implementation for each)."""
    reader_pass(c, '')
    if has386(c):
        reader_pass(c, '386')


def reader_pass(c, arch, hx=None, args=(), env=None):
    hx = hx or c.hx(arch)
    small, big, cases = c.path('small%s.ndjson' % arch), c.path('big%s.ndjson' % arch), c.path('cases%s.ndjson' % arch)
    r = c.run([hx, 'reader', '-prop', c.pid, '-seed', str(c.seed + (100000 if arch else 0)), '-tier', c.tier, '-small', small, '-big', big, '-cases', cases, *args], timeout=3000, env=env)
    s = json.loads(r.stdout)
    c.log('Reader harness %s:' % arch, {k: v for k, v in s.items() if k != 'kinds'})
    bad = c.judge('InflateTrace', small, s['small'])
    bad.update(c.judge('FactTrace', big, s['big']))
    c.traces += s['executions']
    c.cov['reader' + arch] = s
    for f in (small, big):
        d = first_line(f)
        if d:
            c.samples.append({'note': d['note'], 'fmt': d['fmt'], 'input': short(d['b']), 'expected': [d['orc']['err'], d['orc']['n']],
                              'observed': [[o['err'], o['n'], o['vars']] for o in d['obs']][:3]})
    if bad:
        cs = lines(cases, bad)
        for k in sorted(bad, key=lambda x: len(json.dumps(cs[x]))):
            c.violation('; '.join(bad[k]) + (' [%s]' % arch if arch else ''), {'kind': 'reader', 'case': cs[k], 'arch': arch})


def writer_model(c):
    c.modelcheck('WriterModel', note='a design with buffer, pending bits and failing sink keeps the contract WriterApi')


def sequences(c, maxlen):
    """Every call sequence of the contract up to maxlen calls, from TLC."""
    cfg = open(os.path.join(SPEC, 'WriterGen.cfg')).read().replace('MaxLen = 4', 'MaxLen = %d' % maxlen)
    out, gen, dist = c.tlc('WriterGen', cfgtext=cfg)
    seqs = sorted(set(re.findall(r'^"G\|(.*?) *"\s*$', out, re.M)))
    if not seqs:
        raise Broken('WriterGen generated nothing')
    f = c.path('seqs.txt')
    open(f, 'w').write('\n'.join(seqs) + '\n')
    c.log('%d call sequences generated by WriterGen' % len(seqs))
    c.cov['generated_call_sequences'] = len(seqs)
    return f


def writer(c):
    """Writer families: real Writer vs. contract and bit-exact machine."""
    seqs = []
    if c.pid in ('P11', 'P12', 'P13', 'P14', 'P15'):
        writer_model(c)
        seqs = ['-seqs', sequences(c, 5 if c.thorough and c.pid == 'P13' else 4)]
    writer_pass(c, '', seqs)
    if has386(c):
        writer_pass(c, '386', seqs)


def writer_pass(c, arch, seqs, hx=None, env=None):
    hx = hx or c.hx(arch)
    bits, api, cases = c.path('bits%s.ndjson' % arch), c.path('api%s.ndjson' % arch), c.path('wcases%s.ndjson' % arch)
    cmd = [hx, 'writer', '-prop', c.pid, '-seed', str(c.seed + (100000 if arch else 0)), '-tier', c.tier, '-bits', bits, '-api', api, '-cases', cases]
    s = json.loads(c.run(cmd + seqs, timeout=3000, env=env).stdout)
    c.log('Writer harness %s:' % arch, {k: v for k, v in s.items() if k != 'kinds'})
    bad = c.judge('WriterTrace', api, s['epochs'])
    for k, v in c.judge('DeflateTrace', bits, s['bits']).items():
        bad.setdefault(k, []).extend(v)
    c.traces += s['epochs']
    c.cov['writer' + arch] = s
    d = first_line(api)
    if d:
        c.samples.append({'note': d['note'], 'options': d['cfg'], 'calls': [[o['t'], o['f'], o['len'], o['n'], o['err']] for o in d['ops']][:8],
                          'output_bytes': d['size'], 'decoder': d['err']})
    group = {}
    for k, v in bad.items():
        group.setdefault(k.split('.')[0], []).extend(x for x in v if x not in group.get(k.split('.')[0], []))
    cs = lines(cases, group)
    for k in sorted(group, key=lambda x: len(json.dumps(cs[x]))):
        c.violation('; '.join(group[k]) + (' [%s]' % arch if arch else ''), {'kind': 'writer', 'case': cs[k], 'arch': arch})


def conc_run(c, exe, name, spec, args, race=False):
    out, cases = c.path(name + '.ndjson'), c.path(name + '-cases.ndjson')
    env = {'GORACE': 'halt_on_error=1 exitcode=66'} if race else None
    s = json.loads(c.run([exe, '-prop', c.pid, '-seed', str(c.seed), '-tier', c.tier, '-out', out, '-cases', cases, *args], env=env, timeout=3000).stdout)
    c.log('schedules (%s):' % name, s)
    bad = c.judge_lin(spec, out, s['histories'])
    c.traces += s['executions']
    c.cov['schedules_' + name] = s
    d = first_line(out)
    if d:
        c.samples.append({'note': d['note'], 'history': short(d['ops'], 400)})
    if bad:
        cs = lines(cases, {k.split('.')[0] for k in bad})
        sch = lines(cases + '.sched', bad)
        seen = set()
        for k in sorted(bad, key=lambda x: (len(json.dumps(cs[x.split('.')[0]])), x)):
            if k.split('.')[0] in seen:
                continue
            seen.add(k.split('.')[0])
            case = cs[k.split('.')[0]]
            w = case.get('R') or case.get('W')
            if k in sch and sch[k]['sched'] is not None:
                w['ex']['sched'] = sch[k]['sched']
            c.violation('; '.join(bad[k]) + ' [%s, %s]' % (name, case['note']), {'kind': 'conc', 'mode': name, 'case': case})


def conc(c):
    """Histories of concurrent calls under controlled schedules, then (data
    races) without control."""
    spec = 'WriterLin' if c.pid == 'P18' else 'ReaderLin'
    if c.pid != 'P18':
        c.modelcheck('ReaderConc', cfg='ReaderConcBig.cfg' if c.thorough else None,
                     note='the lock-level design of the Reader refines ReaderApi, has no deadlock, and every call returns (liveness under weak fairness)')
        c.modelcheck('ReaderConc', cfg='ReaderConcEndless.cfg',
                     note='the same with a source that never ends: Close, Reset and the Reads of a closed Reader return all the same')
    args = []
    if c.pid == 'P16':
        cfg = open(os.path.join(SPEC, 'ReaderGen.cfg')).read().replace('MaxLen = 5', 'MaxLen = %d' % (6 if c.thorough else 5))
        out, gen, dist = c.tlc('ReaderGen', cfgtext=cfg)
        seqs = sorted(set(re.findall(r'^"G\|(.*?) *"\s*$', out, re.M)))
        open(c.path('rseqs.txt'), 'w').write('\n'.join(seqs) + '\n')
        c.log('%d call sequences generated by ReaderGen' % len(seqs))
        c.cov['generated_call_sequences'] = len(seqs)
        args = ['-seqs', c.path('rseqs.txt')]
    exe = c.hxc()
    if exe:
        conc_run(c, exe, 'controlled', spec, args)
    else:
        conc_run(c, c.hxc_free(False), 'free', spec, args + ['-free', '60'])
    if c.pid in ('P17', 'P18'):
        conc_run(c, c.hxc_free(True), 'race', spec, args + ['-free', '400' if c.thorough else '25'], race=True)


def together(c):
    """Instances at work at the same time: nested in each other's calls, then
    in parallel under the race detector."""
    c.modelcheck('Instances', note='instances that share a pool of scratch objects do not interfere, in every interleaving')
    reader_pass(c, '')
    writer_pass(c, '', [])
    race = c.build(name='hx-race', extra=['-race'], env={'CGO_ENABLED': '1'})
    env = {'GORACE': 'halt_on_error=1 exitcode=66'}
    par = ['-stir', 'par', '-every', '1' if c.thorough else '6']
    reader_pass(c, '-race', race, par, env)
    writer_pass(c, '-race', par, race, env)
    # whatever the code sets up at its first use: new processes, everything at once
    cold = ['-stir', 'cold', '-every', '4' if c.thorough else '11']
    reader_pass(c, '-cold', race, cold, env)
    writer_pass(c, '-cold', cold, race, env)


def genseqs(c, module, subst=(), name='gseqs.txt'):
    """The call sequences a generator specification prints."""
    cfg = open(os.path.join(SPEC, module + '.cfg')).read()
    for a, b in subst:
        if a not in cfg:
            raise Broken('%s.cfg has no %s' % (module, a))
        cfg = cfg.replace(a, b)
    out, gen, dist = c.tlc(module, cfgtext=cfg)
    seqs = sorted(set(re.findall(r'^"G\|(.*?) *"\s*$', out, re.M)))
    if not seqs:
        raise Broken(module + ' generated nothing')
    f = c.path(name)
    open(f, 'w').write('\n'.join(seqs) + '\n')
    c.log('%d histories generated by %s' % (len(seqs), module))
    c.cov['generated_by_' + module] = len(seqs)
    return f


def misc(c, kind, spec, args=(), arch=''):
    """Cases judged by one specification each: enum, sum, conf, cli."""
    hx = c.hx(arch)
    name = kind + arch
    out, cases = c.path(name + '.ndjson'), c.path(name + '-cases.ndjson')
    s = json.loads(c.run([hx, 'misc', '-kind', kind, '-seed', str(c.seed), '-tier', c.tier, '-out', out, '-cases', cases, *args], timeout=1500).stdout)
    c.log('%s harness:' % name, {k: v for k, v in s.items() if k != 'kinds'})
    bad = c.judge(spec, out, s['cases'])
    c.traces += s['cases']
    c.cov[name] = s
    d = first_line(out)
    if d:
        c.samples.append({'note': d['note'], 'observed': short(d, 600)})
    if bad:
        cs = lines(cases, bad)
        for k in sorted(bad, key=lambda x: len(json.dumps(cs[x]))):
            c.violation('; '.join(bad[k]) + ' [%s]' % cs[k]['note'], {'kind': 'misc', 'case': cs[k], 'arch': arch})


def enums(c):
    c.modelcheck('EnumsModel', note='the tables of enumerations: names distinct whatever the letter case, so Parse is well defined')
    misc(c, 'enum', 'EnumTrace')


def has386(c):
    """Can 386 code be built and executed here?"""
    try:
        return c.run([c.hx('386'), 'version'], check=False).returncode == 0
    except (Broken, OSError) as e:
        c.log('no 386 pass:', str(e)[:200])
        c.cov['no_386_pass'] = str(e)[:200]
        return False


def checksums(c):
    misc(c, 'sum', 'ChecksumTrace')
    if has386(c):
        misc(c, 'sum', 'ChecksumTrace', arch='386')


def config(c):
    f = genseqs(c, 'ConfigGen')
    misc(c, 'conf', 'ConfigTrace', ['-seqs', f])


def cli(c):
    exe = c.build('./cmd/gzip', 'gzip', cwd=REPO)
    f = genseqs(c, 'CliGen')
    scratch = c.path('scratch')
    os.makedirs(scratch)
    misc(c, 'cli', 'CliTrace', ['-seqs', f, '-exe', exe, '-dir', scratch])


def aux(c):
    c.modelcheck('ExtraModel', cfg=None, note='extra data: parsing and encoding are inverses, on every string over three byte values up to length 9')
    misc(c, 'aux', 'AuxTrace')


def huge_r(c):
    """Streams of more than 2 and 4 GiB."""
    misc(c, 'hugeR', 'HugeTrace')


def huge_w(c):
    misc(c, 'hugeW', 'HugeTrace')


PLAN = {
    'P01': [writer], 'P02': [writer, huge_w], 'P11': [writer], 'P12': [writer], 'P13': [writer], 'P14': [writer], 'P15': [writer], 'P16': [conc, reader], 'P17': [conc], 'P18': [conc], 'P23': [writer],
    'P03': [reader], 'P04': [reader], 'P05': [reader, huge_r], 'P06': [reader], 'P07': [reader, conc], 'P08': [reader], 'P09': [reader],
    'P10': [reader, writer], 'P19': [reader, writer], 'P20': [reader, writer], 'P21': [reader, writer], 'P22': [reader, writer],
    'P30': [aux],
    'P24': [config], 'P25': [enums], 'P26': [checksums], 'P27': [cli], 'P28': [together], 'P29': [reader],
}


def main():
    pid = sys.argv[1]
    c = Ctx(pid)
    try:
        for step in PLAN[pid]:
            step(c)
        rc = c.finish()
    except Broken as e:
        print('check broken:', e)
        rc = 1 if c.viol and c.finish() else 2
    except Exception:
        traceback.print_exc()
        rc = 1 if c.viol and c.finish() else 2
    sys.exit(rc)


if __name__ == '__main__':
    main()
