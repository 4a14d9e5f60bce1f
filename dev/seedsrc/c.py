SEEDS=[
 dict(id="b41-freshness-boundary", property="C43",
  edits=[("data/readers/reader.py","            if self.freshness_limit < datetime.timedelta(days=self.reader_class.days_stepped_back):","            if self.freshness_limit <= datetime.timedelta(days=self.reader_class.days_stepped_back):")],
  needs="a freshness limit of whole days, with the newest data exactly that many days back",
  breaks="the day at the limit is read but then taken for too old: DataNotFoundError although the limit allows it",
  demo='''
import os, tempfile, json, datetime
os.chdir(tempfile.mkdtemp())
from mabel import Reader
from mabel.adapters.disk import DiskReader
def put(day):
    d = "b/set/year_%04d/month_%02d/day_%02d" % (day.year, day.month, day.day)
    os.makedirs(d, exist_ok=True)
    with open(d + "/a.jsonl", "w") as f:
        f.write(json.dumps({"day": day.isoformat()}) + "\\n")
asked = datetime.date(2021, 5, 10)
put(asked - datetime.timedelta(days=2))
r = Reader(dataset="b/set", inner_reader=DiskReader, start_date=asked, end_date=asked, freshness_limit="2d")
assert [x["day"] for x in r] == ["2021-05-08"]
'''),
 dict(id="b42-aggregate-falsy", property="C39",
  edits=[("data/internals/collected_set.py","            values = [item.get(column) for item in items if item.get(column) is not None]","            values = [value for value in map(lambda item: item.get(column), items) if value]")],
  needs="a collection with a zero (or another falsy value) in the aggregated field",
  breaks="zeros are left out of the aggregate: minimum, mean and count are wrong",
  demo='''
from mabel.data.internals.collected_set import CollectedSet
c = CollectedSet([{"g": 1, "v": 0}, {"g": 1, "v": 4}, {"g": 2, "v": 3}], "g")
assert c.aggregate("v", min) == {1: 0, 2: 3}, c.aggregate("v", min)
'''),
 dict(id="b43-blob-sent-twice", property="C44",
  edits=[("data/readers/internals/multiprocess_wrapper.py","    item_index = slots\n","    item_index = len(process_pool) - 1\n")],
  needs="more blobs than processes, read by several processes",
  breaks="the last blob handed out at the start is handed out again: its records are read twice",
  demo='''
from mabel.data.readers.internals.multiprocess_wrapper import processed_reader
def read(blob, support):
    yield {"blob": blob}
if __name__ == "__main__":
    blobs = ["blob%02d" % i for i in range(24)]
    got = sorted(r["blob"] for r in processed_reader(read, blobs, []))
    assert got == blobs, got
'''),
 dict(id="b44-columns-of-first", property="C45",
  edits=[("data/internals/display.py","    columns = set(columns)  # type:ignore\n","    columns = list(dict.fromkeys(rows[0] if rows else columns))  # type:ignore\n")],
  needs="a later record with a column the first does not have",
  breaks="columns the first record does not have are not shown in the HTML table",
  demo='''
from mabel.data.internals.display import html_table
t = html_table([{"alpha": "one"}, {"alpha": "two", "beta": "three"}], 5)
assert "beta" in t and "three" in t, t
'''),
 dict(id="b45-either-separator", property="C47",
  edits=[("utils/dates.py","            if not value[4] in DATE_SEPARATORS or not value[7] in DATE_SEPARATORS:","            if value[4] not in DATE_SEPARATORS and value[7] not in DATE_SEPARATORS:")],
  needs="a text of ten characters or more with a separator in only one of the two places",
  breaks="texts which are not dates are taken for dates",
  demo='''
from mabel.utils.dates import parse_iso
assert parse_iso("2021-01x02") is None, parse_iso("2021-01x02")
assert parse_iso("2021.01-02") is None
'''),
 dict(id="b46-errors-forgotten", property="C15",
  edits=[("utils/parameter_validator.py","                    if toxic:\n                        has_errors = True\n","                    has_errors = bool(toxic)\n                    if toxic:\n")],
  needs="a call with two faults apart: an unknown or missing parameter, and a parameter with an incompatible_with list nothing on which is given",
  breaks="the verdict on the incompatible parameters replaces the one on unknown and missing parameters, and the call is let through",
  demo='''
from mabel.utils.parameter_validator import validate
from mabel.errors import InvalidReaderConfigError
ran = []
@validate([{"name": "a", "incompatible_with": ["b"]}, {"name": "b"}, {"name": "c", "required": True}])
def read(**kwargs):
    ran.append(sorted(kwargs))
for call in ({"a": 1}, {"a": 1, "c": 2, "zz": 3}, {"c": 1, "zz": 3}, {"a": 1, "b": 1, "c": 1}):
    try:
        read(**call)
    except InvalidReaderConfigError:
        pass
    else:
        raise SystemExit(1)
read(a=1, c=2)
assert ran == [["a", "c"]]
'''),
dict(id="b47-suffix-function", property="C46",
  edits=[("utils/token_labeler.py","    for item in FUNCTIONS:\n        keywords.append(r\"\\b\" + item + r\"\\b\")","    for item in FUNCTIONS:\n        keywords.append(item + r\"\\b\")")],
  needs="a field whose name ends in the name of a function, such as last_year",
  breaks="the name is cut in two, so the filter looks at something else",
  demo='''
from mabel.data.internals.expression import Expression
from mabel.utils.token_labeler import Tokenizer
assert Tokenizer("last_year = 1 and a = 2").tokens == ["last_year", "=", "1", "AND", "a", "=", "2"], Tokenizer("last_year = 1 and a = 2").tokens
assert Expression("last_year = 1").evaluate({"last_year": 1})
'''),
dict(id="b48-label-number-like", property="C46",
  edits=[("utils/token_labeler.py","    if token[0] == token[-1] == \"`\":\n","    if token[0] == token[-1] == \"`\" and not token[1:-1].replace(\" \", \"\").isdigit():\n")],
  needs="a field whose name is a number, given in back quotes",
  breaks="the name is not taken for a field",
  demo='''
from mabel.utils.token_labeler import get_token_type, TOKENS, Tokenizer
assert get_token_type("`10`") == TOKENS.VARIABLE
assert get_token_type("`Year To`") == TOKENS.VARIABLE
'''),
dict(id="b50-hour-once", property="C48",
  edits=[("utils/paths.py","path_string.replace(\"{HH}\", f\"{date.hour:02d}\")","path_string.replace(\"{HH}\", f\"{date.hour:02d}\", 1)")],
  needs="a template that names the hour twice",
  breaks="the second {HH} stays in the path, and no reader finds it",
  demo='''
import datetime
from mabel.utils.paths import date_format
assert date_format("b/{HH}/x-{HH}", datetime.datetime(2021, 2, 3, 4)) == "b/04/x-04"
'''),
dict(id="b52-like-backslash", property="C49",
  edits=[("utils/text.py","REGEX_CHARACTERS = {ch: \"\\\\\" + ch for ch in \".^$*+?{}[]|()\\\\\"}","REGEX_CHARACTERS = {ch: \"\\\\\" + ch for ch in \".^$*+?{}[]|()\"}")],
  needs="a pattern with a backslash",
  breaks="backslash and the letter after it are taken for a class of characters",
  demo='''
from mabel.utils.text import like
assert like("c:\\\\data", "c:\\\\d%")
assert not like("5", "\\\\d")
'''),
dict(id="b53-dots-above", property="C48",
  edits=[("utils/paths.py","    elif path.suffix == \"\":\n","    elif \".\" not in path_string:\n")],
  needs="a bucket or folder with a dot in its name above the dataset",
  breaks="the last folder of the path is taken for a file name and left out: other datasets are read, and written to, with it",
  demo='''
import datetime
from mabel.utils.paths import build_path
assert build_path("b/set.v2/day", datetime.date(2021, 2, 3)) == "b/set.v2/day/"
assert build_path("b/set/{yyyy}", datetime.date(2021, 2, 3)) == "b/set/2021/"
'''),
]
