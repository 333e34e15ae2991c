"""Characters of the relations of the specification."""
REL_CHARS = {"quot": '"', "apos": "'", "amp": "&", "lt": "<", "gt": ">", "tab": "\t", "nl": "\n", "cr": "\r", "sp": " ", "nbsp": "\u00a0",
             "astral": "\U0001f600", "http": "http://a.b"}
REL_REFS = {"quot": "&quot;", "apos": "&apos;", "amp": "&amp;", "lt": "&lt;", "gt": "&gt;", "tab": "&#9;", "nl": "&#xA;", "cr": "&#13;",
            "a": "&#x61;", "astral": "&#128512;"}
REL_SRC = {"<Rel": "<Relationship ", "<Rel>": "<Relationship", "Id=": " Id=", "Type=": " Type=", "Target=": "\n Target=", "/>": " />"}


def rel_text(ts):
    return "".join(REL_CHARS.get(t, t) for t in ts)
