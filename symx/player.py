"""Builds /repo's player in a scratch directory and reads the image and its labels.

Used by the checks (CPython) and by the replay (PyPy).
"""
import os
import re
import shutil
import subprocess
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
HEADER = 0x3a
BASE = 0x800


class BuildError(Exception):
    pass


class Player:
    def __init__(self, image, labels):
        self.image = image          # address -> byte
        self.labels = labels        # name -> address


_player = None


def prepare():
    global _player
    if _player is not None:
        return _player
    d = tempfile.mkdtemp(prefix="verif_player_")
    try:
        src = os.path.join(d, "player")
        shutil.copytree(os.path.join(REPO, "player"), src)
        for f in os.listdir(src):
            if f.endswith((".o", ".lst", ".dsk", ".map", ".dbg")) or f == "iivision":
                os.remove(os.path.join(src, f))
        env = dict(os.environ)
        r = subprocess.run(["make", "build", "CC65_BIN=/usr/bin", "CC65_HOME=/usr/share/cc65"], cwd=src, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        exe, dbg = os.path.join(src, "iivision"), os.path.join(src, "iivision.dbg")
        if not (os.path.exists(exe) and os.path.exists(dbg)):
            raise BuildError("the player does not build:\n" + r.stdout.decode(errors="replace")[-2000:])
        with open(exe, "rb") as f:
            data = f.read()
        with open(dbg) as f:
            labels = parse(f.read())
    finally:
        shutil.rmtree(d)
    image = {BASE + i: b for i, b in enumerate(data[HEADER:])}
    _player = Player(image, labels)
    return _player


def parse(text):
    """Labels of a debug file (independent of transcoder/symbol_table.py)."""
    out = {}
    for line in text.split("\n"):
        if not line.startswith("sym"):
            continue
        name = re.search(r'name="([^"]*)"', line)
        val = re.search(r"val=0x([0-9A-Fa-f]+)", line)
        if name and val and "type=lab" in line:
            out[name.group(1)] = int(val.group(1), 16)
    return out
