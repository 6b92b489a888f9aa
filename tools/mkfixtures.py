#!/usr/bin/env python3
"""mkfixtures.py REPO: writes /verif/fixtures/*.sqlite with the bcalc built in REPO (the pinned base version).

Beside each database is the list of actions that made it (the notation of mc/src/checks/db.rs), from
which the checks compute what is stored in it.
"""
import os, sys, shutil, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root + "/tools")
repo = os.path.abspath(sys.argv[1])
import drive
drive.BIN = repo + "/target/debug/bcalc"

many = ["A+"] + ["A>%d + %d" % (i, i * i) for i in range(98)] + ["A>$a = 1/3", "A-", "A+", "A>$b = $a - 2", "A>$long = 123456789 ^ 40", "A>$a + 1", "A-"]
FIXTURES = {
    "empty": ["A+", "A-"],
    "small": ["A+", "A>/histcap 5", "A>$a = 7/3", "A>1 + 1", "A-"],
    "full": ["A+", "A>/histcap 3", "A>$a = -7", "A>$b = 16 / 3", "A>$a", "A-", "A+", "A>2 ^ 70", "A-"],
    "single": ["A+", "A>/histcap 1", "A>$zz = 0", "A-"],
    "blank": ["A+", "A>", "A>  ", "A>nonsense(", "A>/nosuch", "A>$x = 2", "A>/purgevar $x", "A>$a = 1", "A-"],
    "many": many,
}
out = root + "/fixtures"
os.makedirs(out, exist_ok=True)
for name, acts in FIXTURES.items():
    with tempfile.TemporaryDirectory() as d:
        s = None
        for a in acts:
            if a[1] == "+":
                s = drive.Session(data=d)
            elif a[1] == "-":
                s.close()
            else:
                print(name, a, "->", s.ask(a[2:]))
        assert os.listdir(d + "/bcalc") == ["saved_data.sqlite"]
        shutil.copy(d + "/bcalc/saved_data.sqlite", "%s/%s.sqlite" % (out, name))
        open("%s/%s.acts" % (out, name), "w").write("\n".join(acts) + "\n")
