import subprocess, os
def seed(id, prop, dir, harness, edits, demo, needs, breaks, run=True):
    os.makedirs("/tmp/demo/new", exist_ok=True)
    assert subprocess.run(["git","-C","/repo","status","--short"],capture_output=True,text=True).stdout=="", "dirty"
    try:
        for f, old, new in edits:
            p="/repo/"+f; s=open(p).read()
            assert s.count(old)==1, (id, f, s.count(old))
            open(p,"w").write(s.replace(old,new))
        d=subprocess.run(["git","-C","/repo","diff"],capture_output=True,text=True).stdout
    finally:
        subprocess.run(["git","-C","/repo","checkout","-q","--","."])
    open("/tmp/demo/new/patch.diff","w").write(d)
    open("/tmp/demo/new/demo.rs","w").write(demo)
    open("/tmp/demo/new/needs","w").write(needs); open("/tmp/demo/new/breaks","w").write(breaks)
    subprocess.run(["/tmp/demo/mkseed.sh",id,prop,dir,harness],check=True)
    if run: subprocess.run(["/tmp/demo/try.sh",id])
