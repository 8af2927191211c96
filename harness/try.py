import os, random, sys, json
import case
seed, n = int(sys.argv[1]), int(sys.argv[2])
html = sys.argv[3] == "html"
prof = eval(sys.argv[4]) if len(sys.argv) > 4 else {}
pol = eval(sys.argv[5]) if len(sys.argv) > 5 else {}
opts = eval(sys.argv[6]) if len(sys.argv) > 6 else {}
cases = [case.build(random.Random("%d/%d" % (seed, i)), html, prof, pol, opts) for i in range(n)]
import time; t = time.time()
v, g, d, out = case.validate(cases, show=True)
print("time", time.time()-t, "states", g, "ok", sum(not c for k, c, a in v.values()), "of", n,
      "events", sum(len(c["log"]) for c in cases), "exc", sum(bool(c["exc"]) for c in cases), "compfail", sum(not x["ok"] for c in cases for x in c["comp"]))
bad = [i for i in sorted(v) if v[i][1]]
for i in bad[:int(os.environ.get("N","2"))]:
    c = cases[i-1]
    print("-----", i, v[i][:2]); print("\n----\n".join(c["srcs"])); print("OUT", repr(c["out"])); print("EXC", c["exc"], c["comp"])
    k = v[i][0]
    for ev in c["log"][max(0,k-2):k+2]: print("   ", ev)
    for line in out.splitlines():
        if line.startswith('<<"EXPECTED", %d,' % i) or line.startswith('<<"AT", %d,' % i): print(line[:600])
