#!/usr/bin/env python3
# Writes MANIFEST.json: python3 gen_manifest.py
import json, subprocess
here=__file__.rsplit('/',1)[0] if '/' in __file__ else '.'
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
claimed=subprocess.run([here+'/sim/target/debug/flsim','list'],capture_output=True,text=True).stdout.split()
NA={
 "N01":"pure function of its input: no schedule, clock, I/O or other party takes part in verifying or signing, so there is nothing for a simulator to decide",
 "N02":"pure function of its input: decoding of a byte string; only the values vary, not schedules or faults (its effect on stored state is part of C05, C08, C21)",
}
commits=[l.split()[0] for l in subprocess.run(['git','-C','/repo','log','--format=%H %s'],capture_output=True,text=True).stdout.splitlines() if 'cfg(fledger_sim)' in l]
NOTE={}
m={"version":1,"setup_cmd":"./check.sh build",
 "hooks":{"guard":"--cfg fledger_sim","enable":"RUSTFLAGS '--cfg fledger_sim' through /verif/sim/.cargo/config.toml; check.sh builds /repo's crates as path dependencies of /verif/sim","source_commits":commits[::-1]},
 "checks":[],"not_applicable":[],
 "notes":"one simulator (/verif/sim) decides all properties; 'flsim replay FILE' repeats a violation with its trace; see DESIGN.md"}
for p in props:
    i=p["id"]
    if i in claimed:
        m["checks"].append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}",
          "technique":"deterministic simulation with fault injection (seeded search over schedules and faults)","level":"exploration",
          "level_note":NOTE.get(i,"Seeded search over schedules and faults of the real code under the simulator; assumes that tasks interleave only at await points and that the stubs named in the evidence behave like what they replace.")})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,"check not built yet")})
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1)
print(len(m["checks"]),"claimed")
