import json,os,re
d=open('/verif/DESIGN.md').read()
ex=open('/tmp/excl.txt').read().strip(); fa=open('/tmp/false.txt').read().strip()
d=d.replace("@@EXCL@@",ex).replace("@@FALSE@@",fa)
d=d.replace("DOCX, PPTX, PPTX V2, XLSX. Not covered: INDESIGN (needs the package `ucf`, which isn't installed; its tests are excluded from the baseline too), BETA_ANDROID (superseded draft).",
"DOCX, PPTX, PPTX V2, XLSX, and BETA_ANDROID within its documented dialect (double-quoted attributes, well-formed files, distinct names; what it does outside is recorded under known findings). Not covered: INDESIGN (needs the package `ucf`, which isn't installed; its tests are excluded from the baseline too).")
rows=["Every kept planted bug (`seeded/`) and the check that reports it (run with `tools/seed.py run`); each is caught by the check of its own property.","","| bug | property | needs |","|---|---|---|"]
for i in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%i))
    n=m['needs'].replace("|","\\|").replace("\n"," ")
    rows.append("| %s | %s | %s |"%(i,m['property'],n))
d=re.sub(r"@@SEED@@|<!-- seed -->.*?<!-- /seed -->", lambda _:"<!-- seed -->\n"+"\n".join(rows)+"\n<!-- /seed -->",d,flags=re.S)
open('/verif/DESIGN.md','w').write(d)
