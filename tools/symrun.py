"""symrun PROP [name-substring]: run the contracts of one property and print every obligation that is not proved"""
import os, sys, json, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H); sys.path.insert(0, H + '/bin')
sys.dont_write_bytecode = True
import driver
prop = sys.argv[1]; sub = sys.argv[2] if len(sys.argv) > 2 else ''
tier = 'thorough' if os.environ.get('T') else 'quick'
if sub:
    orig = driver.load_specs
    def ls(p):
        r = orig(p)
        return [s for s in r if sub in s[0]]
    driver.load_specs = ls
t = time.time()
res, skipped = driver.run_sym(prop, tier, int(os.environ.get('LIM', '150')))
if res is None:
    print(skipped); sys.exit()
for r in res:
    bad = [x for x in r['results'] if x['status'] != 'proved']
    be = {}
    for x in r['results']: be[x['backend']] = be.get(x['backend'], 0) + 1
    if r['status']=='ok' and not bad and not os.environ.get('V'):
        tot=globals().setdefault('TOT',[0,0]); tot[0]+=1; tot[1]+=len(r['results']); continue
    print('%-34s %-9s paths %d obl %d bad %d  %.1fs %s %s' % (r['name'], r['status'], r['paths'], len(r['results']), len(bad), r['s'], be, r['info'][:700] if r['status'] != 'ok' else ''))
    for x in bad[:int(os.environ.get('N', "2"))]:
        print("     ", x["status"], x["name"], x["info"][:int(os.environ.get("I","120"))].replace("\n"," "))
        print('         goal', (x['goal'] or '')[:int(os.environ.get("G","300"))].replace("\n"," "))
        if x['model']: print('         model', json.dumps(x['model'])[:400])
    if os.environ.get('V'):
        for x in r['results']: print('       ', x['name'], x['status'], x['backend'], x['s'])
print('clean contracts, obligations:', globals().get('TOT'), 'total %.1fs' % (time.time() - t))
