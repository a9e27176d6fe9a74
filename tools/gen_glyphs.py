"""Writes spec/Glyphs.tla: the glyphs of gdspy.Text, as defined at the pinned commit."""
import ast
import sys

src = open(sys.argv[1]).read()
i = src.index("_font = {")
j = src.index("\n    }", i)
font = ast.literal_eval(src[i + 8:j + 6].strip())
rows = []
for c in range(1, 127):
    g = font.get(chr(c), [])
    rows.append("  <<%s>>" % ", ".join("<<%s>>" % ", ".join("<<%d, %d>>" % p for p in q) for q in g))
with open(sys.argv[2], "w") as f:
    f.write("------------------------------- MODULE Glyphs -------------------------------\n"
            "(* The polygons of every character by its code, in ninths of the text size.   *)\n"
            "(* Generated by tools/gen_glyphs.py from the pinned commit.                    *)\n"
            "Glyphs == <<\n" + ",\n".join(rows) + ">>\n"
            "=============================================================================\n")
