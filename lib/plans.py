"""Which units and which bounded runs decide which property."""
import os, re, shutil
import rtunits, genrun, schem, sets, random
from vxlib import VERIF, BUILD, REPO, run

STD = ['Verus 0.2026.09.13 and its bundled Z3; vstd specifications of core/alloc', 'vx (tools/vx): extraction drops attributes and visibility, see DESIGN.md "Extraction"',
       '64-bit usize']

def harness_src(name):
    """the harness crate, pointed at the tree under test (VX_REPO is for development only)"""
    src = os.path.join(VERIF, 'harness', name)
    if REPO == '/repo': return src
    dst = os.path.join(BUILD, 'hsrc', name)
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst)
    t = open(os.path.join(dst, 'Cargo.toml')).read().replace('"/repo', '"' + REPO)
    open(os.path.join(dst, 'Cargo.toml'), 'w').write(t)
    return dst

def rt_bounded(prop, tier, what):
    def go():
        src = harness_src('rt')
        b = {'name': 'runtime enumeration', 'fails': [], 'cases': 0, 'nontrivial': 0, 'label': 'bounded', 'bound': what}
        r = run(['cargo', 'build', '-q', '--offline', '--target-dir', os.path.join(BUILD, 'rt')], cwd=src, timeout=300)
        if r[0] != 0:
            b['note'] = 'not available: harness does not build against this tree: ' + r[2][-300:]
            return b
        exe = os.path.join(BUILD, 'rt', 'debug', 'rt')
        b['cmd'] = '%s %s %s' % (exe, prop, tier)
        r = run([exe, prop, tier], timeout=300, mem_gb=8)
        return parse_bounded(b, r)
    return go

def parse_bounded(b, r):
    for l in r[1].splitlines():
        if l.startswith('FAIL '): b['fails'].append(l[5:])
        if l.startswith('SAMPLE '): b.setdefault('samples', []).append(l[7:])
        m = re.match(r'CASES (\d+) NONTRIVIAL (\d+)', l)
        if m: b['cases'], b['nontrivial'] = int(m.group(1)), int(m.group(2))
    if r[0] not in (0, 1):
        b['note'] = 'ended with %s: %s' % (r[0], r[2][-300:])
        if r[0] in (101, -6, -11, 134, 139) : b['fails'].append('the run itself crashed (%s): %s' % (r[0], r[2][-300:]))
    return b

def plan(prop, tier, seed, wd):
    p = {'units': [], 'bounded': [], 'trusted': list(STD), 'assumptions': []}
    if prop == 'C10':
        p['units'] = rtunits.c10()
        p['bounded'] = [rt_bounded(prop, tier, 'all strings of up to 4 (thorough 6) characters over 7 characters of 1 to 4 bytes, all boundary positions, all literals of up to 2 of them')]
    elif prop == 'C11':
        p['units'] = rtunits.c11()
        p['bounded'] = [rt_bounded(prop, tier, 'all byte slices of up to 5 (6) bytes over 6 bytes, and their u32 images, all positions, 10 literals')]
    elif prop == 'C12':
        p['units'] = rtunits.c12()
        p['bounded'] = [rt_bounded(prop, tier, 'all strings of up to 5 (7) characters over 7 characters, all boundary positions, plus long lines')]
    elif prop == 'C13':
        p['units'] = rtunits.c13()
        p['bounded'] = [rt_bounded(prop, tier, 'all sequences of up to 4 (6) reports over 11 descriptions, plus sets of up to 300')]
    elif prop in ('C01', 'C02', 'C03', 'C07', 'C08', 'C09'):
        sets.core_plan(p, prop, tier, seed, wd)
    elif prop == 'C04':
        sets.prec_plan(p, tier, seed, wd)
    elif prop == 'C20':
        sets.trace_plan(p, tier, seed, wd)
    elif prop == 'C19':
        sets.params_plan(p, tier, seed, wd)
    elif prop in ('C05', 'C06'):
        sets.cache_plan(p, prop, tier, seed, wd)
    elif prop in ('C14', 'C15'):
        import metaplan
        metaplan.analysis_plan(p, prop, tier, seed)
    elif prop == 'C16':
        import metaplan
        metaplan.translate_plan(p, tier, seed)
    elif prop == 'C17':
        import metaplan
        metaplan.tokens_plan(p, tier, seed)
    elif prop == 'C18':
        import metaplan
        metaplan.boot_plan(p, tier, seed)
    else:
        raise SystemExit('no plan for ' + prop)
    return p
