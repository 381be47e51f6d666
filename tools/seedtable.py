"""rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set("falsy_values bounded_history first_other_only finished_at_end shared_last_commands first_lane_decides hairpin_goal_point small_bodies_transparent islands_ignored "
             "slow_motion_ignored replica_reversing lookahead_policy ring_left_open collided_outline_frozen".split())
rows = []
for d in sorted(os.listdir(f"{ROOT}/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{d}/meta.json"))
    rows.append((m["property"], f"| {d}{' *' if d in MISSED or m.get('missed_at_first') else ''} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |"))
s = open(f"{ROOT}/DESIGN.md").read()
head = s[: s.index("<!-- seeds -->") + len("<!-- seeds -->")]
open(f"{ROOT}/DESIGN.md", "w").write(head + """

Every one is caught by the quick check of its property (VERIF_SEED=1); those marked * were missed when they were planted and the check was strengthened until it saw them.

| seeded/ | caught by | what it breaks | what it needs |
|---|---|---|---|
""" + "\n".join(r for _, r in sorted(rows)) + "\n")
