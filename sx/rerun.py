"""Re-run a recorded counterexample on the real code: rerun.py FILE"""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))

if __name__ == "__main__":
    with open(sys.argv[1]) as f:
        d = json.load(f)
    with tempfile.TemporaryDirectory() as t:
        with open(t + "/in.json", "w") as f:
            json.dump([d["case"]], f)
        subprocess.run(["/opt/venv/bin/python", HERE + "/creplay.py",
                        t + "/in.json", t + "/out.json"], check=True)
        with open(t + "/out.json") as f:
            print(json.dumps(json.load(f)[0], indent=1))
