D="data/internals/display.py"
SAN='''        if not isinstance(htmlstring, str):
            htmlstring = str(htmlstring)
        escapes = {'"': "&quot;", "'": "&#39;", "<": "&lt;", ">": "&gt;", "$": "&#x24;"}
        # This is done first to prevent escaping other escapes.
        htmlstring = htmlstring.replace("&", "&amp;")
        for seq, esc in escapes.items():
            htmlstring = htmlstring.replace(seq, esc)
        return htmlstring
'''
BAD=[
 ("C26",(D,'''"'": "&#39;", ''',""),"quote kept"),
 ("C26",(D,'''"<": "&lt;", ''',""),"lt kept"),
 ("C26",(D,'''        htmlstring = htmlstring.replace("&", "&amp;")\n''',""),"amp kept"),
 ("C26",(D,SAN,SAN.replace('''        htmlstring = htmlstring.replace("&", "&amp;")\n''',"").replace("        return htmlstring\n",'''        return htmlstring.replace("&", "&amp;")\n''')),"amp last"),
 ("C26",(D,'''htmlstring.replace(seq, esc)''','''htmlstring.replace(seq, esc, 1)'''),"first only"),
 ("C26",(D,'''<th>{sanitize(column)}<th>''','''<th>{column}<th>'''),"header raw"),
 ("C26",(D,'''<td title='{sanitized}' ''','''<td title='{record.get(column, "")}' '''),"title raw"),
 ("C26",(D,'''", ".join([sanitize(i) for i in htmlstring])''','''", ".join([str(i) for i in htmlstring])'''),"nested raw"),
 ("C26",(D,'''return sanitize("{ " + ", ".join([f'"{k}": {v}' for k, v in htmlstring.items()]) + " }")''','''return "{ " + ", ".join([f'"{k}": {sanitize(v)}' for k, v in htmlstring.items()]) + " }"'''),"keys raw"),
 ("C26",(D,SAN,SAN.replace("        escapes =",'''        if htmlstring.startswith("http"):\n            return htmlstring\n        escapes =''')),"links raw"),
 ("C26",(D,SAN,SAN.replace("        escapes =",'''        if "<" not in htmlstring:\n            return htmlstring\n        escapes =''')),"only if lt"),
 ("C26",(D,SAN,'''        import html\n\n        return html.escape(str(htmlstring), quote=False)\n'''),"no quotes"),
 ("C26",(D,'''            htmlstring = str(htmlstring)\n''','''            return str(htmlstring)\n'''),"not text"),
]
GOOD=[
 ((D,SAN,'''        import html\n\n        return html.escape(str(htmlstring))\n'''),"html.escape"),
 ((D,SAN,'''        htmlstring = str(htmlstring)
        htmlstring = htmlstring.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
        return htmlstring.replace('"', "&quot;").replace("'", "&#39;")
'''),"chain"),
 ((D,SAN,'''        return str(htmlstring).translate(str.maketrans({'"': "&quot;", "'": "&#39;", "<": "&lt;", ">": "&gt;", "&": "&amp;"}))
'''),"translate"),
 ((D,'''                sanitized = sanitize(record.get(column, ""))
                yield f"<td title='{sanitized}' style='max-width:320px;overflow:hidden;text-overflow:ellipsis;white-space:nowrap;'>{sanitized}<td>\\n"
''','''                yield _cell(sanitize(record.get(column, "")))
'''),(D,"    def _to_html_table(data, columns):\n","    def _cell(text):\n        return \"<td title='\" + text + \"' style='max-width:320px;overflow:hidden;text-overflow:ellipsis;white-space:nowrap;'>\" + text + \"<td>\\n\"\n\n    def _to_html_table(data, columns):\n"),"cell helper"),
 ((D,'''                for column in columns:
                    yield f"<th>{sanitize(column)}<th>\\n"
''','''                yield "".join(f"<th>{sanitize(column)}<th>\\n" for column in columns)
'''),"join headers"),
 ((D,SAN,'''        text = str(htmlstring)
        out = []
        for c in text.replace("&", "&amp;").split("\\n"):
            c = c.replace("<", "&lt;").replace(">", "&gt;")
            out.append(c.replace('"', "&quot;").replace("'", "&#39;"))
        return "\\n".join(out)
'''),"by line"),
]
