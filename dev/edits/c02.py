F="data/writers/batch_writer.py"; W="data/writers/writer.py"
BAD=[
 ("C02",(F,"        final = super().finalize()\n\n        if has_failure:","        if has_failure:"),(F,"        get_logger().debug(f\"Frame completion file `{flag}` written\")\n","        final = super().finalize()\n"),"marker before data"),
 ("C02",(F,"        if self.seen_failures:\n","        if self.seen_failures and self.records == 0:\n"),"sticky weakened"),
 ("C02",(F,"            self.seen_failures = True\n\n","            self.seen_failures = has_failure and self.records > 0\n\n"),"sticky only with records"),
 ("C02",(F,"        self.seen_failures = False\n\n        self.always","        self.always"),(F,"        if has_failure:\n            self.seen_failures = True\n","        self.seen_failures = has_failure\n"),"flag overwritten"),
 ("C02",(F,"if self.records == 0 and not self.always_complete","if self.records == 0"),"always_complete ignored"),
 ("C02",(F,"if self.records == 0 and not self.always_complete","if self.records <= 1 and not self.always_complete"),"one-record frame unmarked"),
 ("C02",(F,"if self.records == 0 and not self.always_complete","if self.records < 0 and not self.always_complete"),"empty frame marked"),
 ("C02",(F,"os.path.split(completion_path)[0]","os.path.split(os.path.split(completion_path)[0])[0]"),"wrong folder"),
 ("C02",(W,"            logger.error(f\"{type(self).__name__} failed to close pool: {type(e).__name__} - {e}\")\n            raise e","            logger.error(f\"{type(self).__name__} failed to close pool: {type(e).__name__} - {e}\")"),"swallow commit failure"),
 ("C02",(W,"        self.blob_writer.append(record)\n        self.records += 1","        self.blob_writer.append(record)\n        self.records = self.records"),"records not counted"),
 ("C02",(F,"        completion_path = self.blob_writer.inner_writer.filename\n","        if final == \"\":\n            return -1\n        completion_path = self.blob_writer.inner_writer.filename\n"),"no marker when last blob already flushed"),
]
GOOD=[
 ((F,"        if has_failure:\n            get_logger().debug(f\"Error found in the stack, not marking frame as complete.\")\n            return -1\n\n",""),"merge failure branches"),
 ((F,"os.path.split(completion_path)[0] + \"/frame.complete\"","os.path.join(os.path.dirname(completion_path), \"frame.complete\")"),"dirname"),
 ((F,"        if self.records == 0 and not self.always_complete:\n","        nothing = self.records < 1\n        if not self.always_complete and nothing:\n"),"reorder cond"),
 ((F,"        completion_path = self.blob_writer.inner_writer.filename\n        completion_path = os.path.split(completion_path)[0] + \"/frame.complete\"\n        flag = self.blob_writer.inner_writer.commit(\n            b\"\",\n            override_blob_name=completion_path,\n        )\n","        flag = self._mark()\n"),(F,"    def finalize(self, **kwargs):\n","    def _mark(self):\n        inner = self.blob_writer.inner_writer\n        folder, _ = os.path.split(inner.filename)\n        return inner.commit(b\"\", folder + \"/frame.complete\")\n\n    def finalize(self, **kwargs):\n"),"helper mark"),
]
