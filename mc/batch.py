"""Runs conversions listed in a file with the tool's own main function (one process per environment)."""

import json
import os
import sys

jobs = json.load(open(sys.argv[1]))
report = sys.argv[2]
from palworld_save_tools.commands import convert

out = []
for job in jobs:
    st = []
    for args in job:
        sys.argv = ["palworld-save-tools", *args]
        try:
            convert.main()
            st.append(0)
        except SystemExit as e:
            st.append(e.code or 0)
        except BaseException as e:
            st.append(f"{type(e).__name__}: {ascii(str(e))}")
    out.append(st)
with open(report, "w") as f:
    json.dump(out, f)
