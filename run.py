#!/opt/venv/bin/python
"""run.py PROPERTY [quick|thorough]  -- see DESIGN.md"""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["TZ"] = "UTC"
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.join(HERE, "run.py")] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from symx.check import cli  # noqa: E402
cli()
