R="data/readers/internals/base_inner_reader.py"
CH='''                        while not is_complete(partitioned_blobs) or is_invalid(partitioned_blobs):'''
SEL='''                                if self._extract_as_at(blob) == as_at
                                and ("/frame.complete" not in blob)'''

BAD=[
 ("C11",(R,CH,CH.replace(" or is_invalid(partitioned_blobs)","")),"ignore not checked"),
 ("C11",(R,CH,CH.replace("while not is_complete(partitioned_blobs) or","while not is_complete(partitioned_blobs) and")),"and for or"),
 ("C11",(R,CH,CH.replace("not is_complete(partitioned_blobs) or ","")),"complete not checked"),
 ("C11",(R,CH,CH.replace("is_complete(partitioned_blobs)","is_complete(cycle_blobs)")),"completeness anywhere"),
 ("C11",(R,CH,CH.replace("is_invalid(partitioned_blobs)","is_invalid(cycle_blobs)")),"ignore anywhere"),
 ("C11",(R,"                        as_ats = sorted(as_ats)\n                        as_at = as_ats.pop()\n","                        as_ats = sorted(as_ats)\n                        as_at = as_ats.pop(0)\n"),"oldest first"),
 ("C11",(R,"                        as_ats = sorted(as_ats)\n                        as_at = as_ats.pop()\n","                        as_ats = sorted(as_ats, reverse=True)\n                        as_at = as_ats.pop()\n"),"reverse"),
 ("C11",(R,"                        as_ats = sorted(as_ats)\n                        as_at = as_ats.pop()\n","                        as_ats = list(as_ats)\n                        as_at = as_ats.pop()\n"),"unsorted"),
 ("C11",(R,"                            if len(as_ats) > 0:\n                                as_at = as_ats.pop()\n","                            if len(as_ats) > 0:\n                                as_at = as_ats.pop(0)\n"),"second oldest"),
 ("C11",(R,"                            partitioned_blobs = []\n                        else","                            pass\n                        else"),"no valid frame: read all"),
 ("C11",(R,SEL,SEL.replace("self._extract_as_at(blob) == as_at","as_at in blob")),"prefix"),
 ("C11",(R,SEL,SEL.replace("self._extract_as_at(blob) == as_at\n                                and ","")),"no frame selection"),
 ("C11",(R,'''self._extract_as_at(blob) for blob in partitioned_blobs if "as_at_" in blob''','''self._extract_as_at(blob) for blob in cycle_blobs if "as_at_" in blob'''),"candidates anywhere"),
 ("C11",(R,"                    if as_ats:\n","                    if len(as_ats) > 1:\n"),"single frame unchecked"),
 ("C11",(R,SEL,SEL.replace("self._extract_as_at(blob) == as_at","self._extract_as_at(blob) >= as_at")),"frames newer too"),
 ("C13",(R,'''if "BACKOUT" not in blob]''','''if "BACKOUT/" in blob or "as_at" in blob]'''),"backout kept"),
 ("C13",(R,'''                cycle_blobs = [blob for blob in cycle_blobs if "BACKOUT" not in blob]\n''',''''''),"backout unfiltered"),
 ("C13",(R,'''                cycle_blobs = [blob for blob in cycle_blobs if "BACKOUT" not in blob]\n''','''                data_blobs = [blob for blob in cycle_blobs if "BACKOUT" not in blob]\n'''),"filtered copy unused"),
 ("C18",(R,"                    blobs += partitioned_blobs\n","                    blobs = partitioned_blobs\n"),"last only"),
 ("C18",(R,'''                visited[cycle_path] = True\n''',''''''),"never visited"),
 ("C18",(R,'''            if not cycle_path in visited:''','''            if True:'''),"visited unchecked"),
 ("C18",(R,'''if f"/{chosen_partition}/" in blob]''','''if f"/{chosen_partition}" in blob]'''),"partition prefix"),
 ("C18",(R,'''if f"by_{partition_filter_field}" in list_of_partitions:''','''if any(by.startswith(f"by_{partition_filter_field}") for by in list_of_partitions):'''),"filter prefix"),
 ("C18",(R,'''if f"by_{partition_filter_field}" in list_of_partitions:''','''if f"by_{partition_filter_field}" in str(list_of_partitions):'''),"filter prefix str"),
 ("C18",(R,'''{partition_filter_field}={partition_filter_value}/"''','''{partition_filter_field}={partition_filter_value}"'''),"filter value prefix"),
 ("C18",(R,'''dates.date_range(self.start_date, self.end_date)''','''dates.date_range(self.start_date, self.start_date)'''),"one day"),
 ("C18",(R,'''build_path(path=self.dataset, date=cycle_date)''','''build_path(path=self.dataset, date=self.start_date)'''),"same day"),
 ("C18",(R,'''                    if f"by_{partition_filter_field}" in list_of_partitions:
                        # Do the pruning
                        cycle_blobs = [blob for blob in cycle_blobs if partition_filter in blob]
''','''                    if f"by_{partition_filter_field}" in list_of_partitions:
                        # Do the pruning
'''),"filter not applied"),
]
GOOD=[
 ((R,'''                        is_complete = lambda blobs: any(
                            [blob for blob in blobs if as_at + "/frame.complete" in blob]
                        )
                        is_invalid = lambda blobs: any(
                            [blob for blob in blobs if (as_at + "/frame.ignore" in blob)]
                        )
''','''                        def is_complete(names):
                            marker = f"{as_at}/frame.complete"
                            for name in names:
                                if marker in name:
                                    return True
                            return False

                        def is_invalid(names):
                            return any(f"{as_at}/frame.ignore" in name for name in names)
'''),"marker helpers"),
 ((R,"                        as_ats = sorted(as_ats)\n                        as_at = as_ats.pop()\n","                        as_ats = list(as_ats)\n                        as_ats.sort()\n                        as_at = as_ats.pop(-1)\n"),"sort in place"),
 ((R,'''                cycle_blobs = list(self.get_blobs_at_path(path=cycle_path))

                # Remove any BACKOUT data - this is essentially a DEAD LETTER queue
                # so we don't want to include in when reading
                cycle_blobs = [blob for blob in cycle_blobs if "BACKOUT" not in blob]
''','''                cycle_blobs = []
                for blob in self.get_blobs_at_path(path=cycle_path):
                    if "BACKOUT" in blob:
                        continue
                    cycle_blobs.append(blob)
'''),"backout loop"),
 ((R,'''        visited = {}
        blobs = []''','''        visited = set()
        blobs = []'''),(R,"visited[cycle_path] = True","visited.add(cycle_path)"),"visited set"),
 ((R,'''            if not cycle_path in visited:
                visited[cycle_path] = True

''','''            if cycle_path in visited:
                continue
            visited[cycle_path] = True
            if True:
'''),"continue"),
 ((R,'''                    blobs += partitioned_blobs\n''','''                    blobs.extend(partitioned_blobs)\n'''),"extend"),
 ((R,'''        while not is_complete(partitioned_blobs) or is_invalid(partitioned_blobs):''','''        while is_invalid(partitioned_blobs) or not is_complete(partitioned_blobs):'''),"swapped"),
 ((R,'''                    if as_ats:
                        as_ats = sorted(as_ats)
                        as_at = as_ats.pop()
''','''                    if as_ats:
                        as_ats = sorted(as_ats, reverse=True)
                        as_at = as_ats.pop(0)
'''),(R,'''                                as_at = as_ats.pop()
                            else:''','''                                as_at = as_ats.pop(0)
                            else:'''),"descending"),
]
