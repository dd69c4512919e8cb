"""For each fix commit of /repo: undo it in the working tree, run the check of its property, keep the minimal failing case in regress/. Run by hand."""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = ["git", "-C", "/repo"]
for line in json.load(open(HERE + "/known_findings.json"))["fixed"]:
    pid, commit = re.match(r"fixed: property=(\S+) (\S+)", line).groups()
    if len(sys.argv) > 1 and not any(commit.startswith(a) for a in sys.argv[1:]):
        continue
    diff = subprocess.check_output(R + ["diff", commit, commit + "^"])
    p = subprocess.run(R + ["apply", "--3way", "-"], input=diff, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    conflict = b"conflict" in p.stdout or p.returncode
    try:
        if conflict:
            print(pid, commit, "CONFLICT", line[:100])
            continue
        for f in os.listdir(HERE + "/replays"):
            if f.startswith(pid + "-"):
                os.remove(HERE + "/replays/" + f)
        r = subprocess.run(["bash", HERE + "/run.sh", pid], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        m = re.search(r"VIOLATION property=\S+ replay=(\S+)", r.stdout)
        print(pid, commit, r.returncode, r.stdout.splitlines()[0][:160], flush=True)
        if m:
            os.makedirs(HERE + "/regress/" + pid, exist_ok=True)
            shutil.copy(m.group(1), HERE + "/regress/%s/%s.json" % (pid, commit))
    finally:
        subprocess.check_call(R + ["reset", "-q", "--hard"])
