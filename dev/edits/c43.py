R="data/readers/reader.py"; BR="data/readers/internals/base_inner_reader.py"
BAD=[
 ("C43",(R,"self.freshness_limit >= datetime.timedelta(\n                days=self.reader_class.days_stepped_back\n            ):","self.freshness_limit > datetime.timedelta(\n                days=self.reader_class.days_stepped_back + 1\n            ):"),"limit day not tried"),
 ("C43",(R,"            if self.freshness_limit < datetime.timedelta(days=self.reader_class.days_stepped_back):","            if self.freshness_limit.total_seconds() < 0:"),"limit not looked at again"),
 ("C43",(R,"                self.reader_class.step_back_a_day()\n","                self.reader_class.step_back_a_day()\n                self.reader_class.step_back_a_day()\n"),"two days a time"),
 ("C43",(R,"            while not bool(blob_list) and self","            while len(blob_list) < 2 and self"),"wants two blobs"),
 ("C43",(R,"                self.reader_class.step_back_a_day()\n                blob_list = self.reader_class.get_list_of_blobs()","                self.reader_class.step_back_a_day()\n                blob_list = blob_list + self.reader_class.get_list_of_blobs() if self.reader_class.days_stepped_back < 3 else []"),"third day forgotten"),
 ("C43",(BR,"        self.days_stepped_back += 1\n","        self.days_stepped_back = 1\n"),"never counts"),
 ("C43",(BR,"        self.end_date -= datetime.timedelta(days=1)\n        return","        return"),"end stays"),
 ("C43",(BR,"        self.start_date -= datetime.timedelta(days=1)\n        self.end_date -=","        self.start_date -= datetime.timedelta(days=1)\n        self.end_date +="),"end forward"),
 ("C43",(R,"    freshness_limit = parse_delta(kwargs.get(\"freshness_limit\", \"\"))","    freshness_limit = parse_delta(kwargs.get(\"freshness\", \"\"))"),"other name"),
 ("C43",(R,"    if freshness_limit and reader_class.start_date != reader_class.end_date:","    if freshness_limit and reader_class.start_date > reader_class.end_date:"),"range accepted"),
 ("C43",(R,"        if self.freshness_limit > datetime.timedelta(seconds=1):","        if self.freshness_limit > datetime.timedelta(days=1):"),"one day is no limit"),
]
GOOD=[
 ((R,"            while not bool(blob_list) and self.freshness_limit >= datetime.timedelta(\n                days=self.reader_class.days_stepped_back\n            ):","            while not blob_list and self.freshness_limit >= datetime.timedelta(\n                days=self.reader_class.days_stepped_back + 1\n            ):"),(R,"            if self.freshness_limit < datetime.timedelta(days=self.reader_class.days_stepped_back):","            if not blob_list:"),"no extra day"),
 ((BR,"        self.start_date -= datetime.timedelta(days=1)\n        self.end_date -= datetime.timedelta(days=1)\n","        one_day = datetime.timedelta(hours=24)\n        self.start_date = self.start_date - one_day\n        self.end_date = self.end_date - one_day\n"),"named day"),
 ((R,"        blob_list = self.reader_class.get_list_of_blobs()\n\n","        blob_list = self._look_back()\n\n"),(R,"    def __iter__(self):","    def _look_back(self):\n        return self.reader_class.get_list_of_blobs()\n\n    def __iter__(self):"),"helper"),
]
