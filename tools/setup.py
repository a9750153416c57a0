#!/usr/bin/env python3
"""Fresh sandbox: make the scratch folders. Checks build everything themselves from /repo."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in (".build", "evidence"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
print("ok")
