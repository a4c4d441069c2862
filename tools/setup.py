"""setup_cmd: nothing is compiled; verify that the toolchain answers and every spec parses."""
import subprocess, pathlib, sys, tempfile, concurrent.futures as cf
V = pathlib.Path(__file__).resolve().parents[1]
(V / "evidence").mkdir(exist_ok=True)
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
def parse(f):
    with tempfile.TemporaryDirectory() as d:
        p = subprocess.run(["java", f"-DTLA-Library={V}/spec", "-cp", CP, "tla2sany.SANY", str(f)], cwd=d, capture_output=True, text=True)
    return f.name, p.returncode, p.stdout + p.stderr
bad = 0
with cf.ThreadPoolExecutor(4) as ex:
    for n, rc, out in ex.map(parse, sorted((V / "spec").glob("*.tla"))):
        if rc:
            bad = 1
            print(n, out[-1500:])
import pyTMD
print("pyTMD from", pyTMD.__file__)
sys.exit(bad)
