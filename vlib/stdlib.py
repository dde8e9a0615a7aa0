"""Modules of the standard library that can be imported here without side effects."""
import json, sys

EXCLUDED = {"antigravity", "this", "idlelib", "turtledemo", "test", "turtle", "tkinter", "lib2to3", "ensurepip", "venv", "pip",
            "rlcompleter", "readline", "msilib", "msvcrt", "nis", "nt", "winreg", "winsound", "encodings"}
MODULES = sorted(n for n in sys.stdlib_module_names if not n.startswith("_") and n not in EXCLUDED)
SLOW = {"asyncio", "email", "http", "logging", "multiprocessing", "xml", "unittest", "mailbox"}
FAST = [n for n in MODULES if n not in SLOW]
SUB = ["html.entities", "html.parser", "os.path", "json.decoder", "urllib.parse", "collections.abc", "email.message", "xml.dom.minidom", "importlib.abc",
       "concurrent.futures", "logging.handlers", "http.client", "unittest.mock", "asyncio.events", "xml.etree.ElementTree", "importlib.metadata"]
