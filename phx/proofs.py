"""What the thorough tier proves about the specifications themselves, beside replaying them:
enumerations of small inputs (spec/lemmas.qnt, quint test) and inductive invariants (spec/proof_*.qnt, Apalache)."""
import os
import re
import shutil
import socket
import subprocess
import tempfile
import time

from . import core

# property -> specification whose all1 is proved inductive (start: any consistent state, any1: any call)
PROOFS = {
    "T01": ["proof_token"], "T02": ["proof_token"], "T03": ["proof_token"],
    "K01": ["proof_stake"], "K04": ["proof_stake"],
    "V02": ["proof_vesting"], "V04": ["proof_vesting"],
}


def lemmas(prop):
    with open(os.path.join(core.SPEC, "lemmas.qnt")) as f:
        return re.findall(r"^\s*run (%s_\w+Test)\b" % prop, f.read(), re.M)


def free_port():
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


class Extra:
    """started before the replay, collected after it"""

    def __init__(self, prop, tier):
        self.t0 = time.time()
        self.runs = []
        if tier != "thorough":
            return
        names = lemmas(prop)
        if names:
            self.start("lemmas", ["quint", "test", os.path.join(core.SPEC, "lemmas.qnt"), f"--match=^{prop}_"], names)
        for p in PROOFS.get(prop, []):
            self.start("proof", ["quint", "verify", os.path.join(core.SPEC, p + ".qnt"), "--init=start", "--step=any1",
                                 "--max-steps=1", "--invariant=all1", f"--server-endpoint=localhost:{free_port()}"], [p])

    def start(self, kind, cmd, names):
        d = tempfile.mkdtemp(prefix="phx-", dir=core.tmpdir())
        out = open(os.path.join(d, "out"), "w+")
        self.runs.append((kind, names, d, out, subprocess.Popen(cmd, cwd=d, stdout=out, stderr=subprocess.STDOUT, start_new_session=True)))

    def finish(self, budget):
        """{"coverage": ..., "errors": [...]}"""
        cov, errors = {}, []
        for kind, names, d, out, p in self.runs:
            try:
                rc = p.wait(max(5, self.t0 + budget - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                rc = None
            out.seek(0)
            text = out.read()
            out.close()
            shutil.rmtree(d, ignore_errors=True)
            if kind == "lemmas":
                ok = re.findall(r"ok (\w+) passed", text)
                cov["lemmas_enumerated"] = ok
                bad = [n for n in names if n not in ok] if rc is not None else []
            else:
                if rc == 0 and "NoError" in text or "No violation found" in text:
                    cov.setdefault("proved_inductive", []).extend(names)
                    bad = []
                else:
                    bad = names if re.search(r"violation|Violation", text) else []
                    cov.setdefault("proofs_without_an_answer", []).extend([] if bad else names)
            if bad:
                errors.append(f"the specification fails {', '.join(bad)}:\n" + text[-1200:])
        return {"coverage": cov, "errors": errors}
