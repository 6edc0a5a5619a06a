import json,glob,os
s=open('/verif/DESIGN.md').read()
s=s.replace("| C32 PBS packing and scripts |","| C33 plots | distributions, raw samples, variance tables, eigenvalues, log axes | the artists of the drawn figure against the data | ≥16 samples for a histogram, ≥6 steps | figures are not read back |\n| C32 PBS packing and scripts |") if "| C33 plots" not in s else s
# order rows
lines=s.split("\n")
i=[k for k,l in enumerate(lines) if l.startswith("| C33 plots")][0]; j=[k for k,l in enumerate(lines) if l.startswith("| C32 PBS pack")][0]
if i<j: lines[i],lines[j]=lines[j],lines[i]
s="\n".join(lines)
s=s.replace("All 32 properties","All 33 properties")
if "9e2a3db" not in s:
    s=s.replace("| C28 | 125365e, e990249 |","""| C13 | 9e2a3db | `QDict` accepted a condition after numbers, reading it failed later |
| C22 | 59ffbd8 | density solver reported success with wrong moments for symmetric densities: the quadrature was refined by the odd last moment |
| C29 | ba54ad9, 4f1ca6f | semi-exact moments and covariances wrong (error up to 1.9) for peaks where the last moment vanishes |
| C33 | c30df95, 14506b5 | variance plots failed with fewer than eleven moments; eigenvalue plots failed with errors, increasing or non-positive values |
| C28 | 125365e, e990249 |""")
s=s.replace("plots, the examples,","`plot_bs_var_log_var` and the plots that need pandas or `hist(normed)` (incompatible with the installed matplotlib), the examples,")
a=s.find("## Planted bugs")
if a>=0:
    b=s.find("\n## ",a+5); s=s[:a]+(s[b+1:] if b>0 else "")
rows=[]
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json'))
    rows.append((m['property'],os.path.basename(d),m['needs']))
t="""## Planted bugs

`seeded/` is built by `tools/try_bug.py` from the specifications in `tools/bugs/`; every bug was confirmed (demonstration fails, stable tests
pass) and is reported by the quick check of its own property. `tools/trial.py` runs a check against small edits without the tests, and
`tools/mutate.py` samples random mutations of covered lines; misses found by these led to new generator parts (C13 missing parts, C14 structured operands,
C16 infinite values, C19 repeated draws, C22 tails and symmetric densities, C29 centred peaks, C30 with two samples on a level). Surviving mutants were
read one by one; those left are equivalent (logging, unreachable branches, tolerances inside the documented accuracy).

| check that reports it | planted bug | needs |
|---|---|---|
"""+"\n".join("| {} | {} | {} |".format(*r) for r in sorted(rows))+"\n\n"
k=s.find("## False alarms corrected")
s=s[:k]+t+s[k:]
open('/verif/DESIGN.md','w').write(s)
