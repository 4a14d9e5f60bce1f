C="data/readers/internals/cursor.py"; R="data/readers/reader.py"; P="data/readers/internals/parallel_reader.py"
BAD=[
 ("C16",(C,"self.readable_blobs = sorted(readable_blobs)","self.readable_blobs = list(readable_blobs)"),"unsorted"),
 ("C16",(C,"range(self.location + 1)","range(self.location)"),"skip one too few"),
 ("C16",(C,"return self.location + 1","return self.location"),"location off"),
 ("C16",(C,'''            self.read_blobs.append(previous_blob)
''','''            if previous_blob != self.partition:
                self.read_blobs.append(previous_blob)
'''),"not marked"),
 ("C16",(C,'''            self.partition = ""
            self.location = -1
        if''','''            self.partition = ""
        if'''),"location kept... harmless?") if False else ("C16",(C,'''            self.partition = unread[0]
            self.location = -1''','''            self.partition = unread[0]
            self.location = 0'''),"starts at 0"),
 ("C16",(C,"blob not in self.read_blobs]","blob > self.partition]"),"later names only"),
 ("C16",(C,'"1" if blob in self.read_blobs else "0"','"0" if blob in self.read_blobs else "1"'),"map inverted"),
 ("C16",(C,"range(len(self.readable_blobs)) if blob_map[i]","range(len(self.readable_blobs)) if not blob_map[i]"),"map load inverted"),
 ("C16",(C,'return xxh3_64_intdigest(self.partition, 0)','return xxh3_64_intdigest(self.partition, 1)'),"seed differs"),
 ("C16",(C,'self.location = cursor["location"]','self.location = cursor["location"] - 1'),"location off on load"),
 ("C16",(C,'blob_map = bitarray()','blob_map = bitarray(endian="little")'),"endianness"),
 ("C16",(C,'''for blob in self.readable_blobs])''','''for blob in reversed(self.readable_blobs)])'''),"map reversed"),
 ("C16",(R,"enumerate(blob_reader, start=location)","enumerate(blob_reader)"),"enumerate from 0"),
 ("C16",(R,'''                for self.cursor.location, record in enumerate(blob_reader, start=location):
                    yield record
''','''                for position, record in enumerate(blob_reader, start=location):
                    yield record
                    self.cursor.location = position
'''),"location set after yield"),
 ("C16",(R,'''                blob_to_read = self.cursor.next_blob(blob_to_read)
''','''                blob_to_read = self.cursor.next_blob(self.cursor.partition)
'''),"partition instead") if False else ("C16",(R,"                location = self.cursor.skip_to_cursor(blob_reader)\n","                location = 0\n"),"never skipped"),
 ("C16",(C,"if self.partition and self.location >= 0:","if self.partition and self.location > 0:"),"location 0 is lost"),
 ("C16",(C,'''                return self.partition
            partition_finder''','''                self.location = -1
                return self.partition
            partition_finder'''),"place lost"),
 ("C16",(C,"if self.location < 0:","if self.location <= 0:"),"first record again"),
 ("C16",(C,'"partition": self["partition"],','"partition": self.partition,'),"partition not hashed"),
 ("C16",(C,'[\n            self.readable_blobs[i] for i in','[\n            self.readable_blobs[i - 1] for i in'),"shifted"),
 ("C17",(P,'''        except Exception as e:
''','''        except (ValueError, OSError) as e:
'''),"narrow"),
 ("C17",(P,'''            logger.error(f"{blob_name} had''','''            logger.debug(f"{blob_name} had'''),"debug"),
 ("C17",(P,'''            logger.error(f"{blob_name} had an''','''            logger.error(f"There was an'''),"not named"),
 ("C17",(P,'''            return []
''','''            raise
''') if False else (P,'''{traceback.format_exc()}")
            return []''','''{traceback.format_exc()}")
            raise'''),"re-raised"),
 ("C17",(P,'".complete": (empty_list, empty_list, EXTENSION_TYPE.CONTROL)','".complete": (decompressors.lines, parsers.json, EXTENSION_TYPE.DATA)'),"complete is data"),
 ("C17",(P,'".manifest": (empty_list, empty_list, EXTENSION_TYPE.CONTROL)','".manifest": (decompressors.block, parsers.json, EXTENSION_TYPE.DATA)'),"manifest is data"),
 ("C17",(R,"Cursor(readable_blobs=readable_blobs","Cursor(readable_blobs=supported_blobs"),"control in cursor"),
 ("C17",(R,"yield from processed_reader(parallel, readable_blobs, supported_blobs)","yield from processed_reader(parallel, blob_list, supported_blobs)"),"all in parallel"),
 ("C17",(R,'''            get_logger().warning(message)
            raise DataNotFoundError(message)
        else:''','''            get_logger().warning(message)
            return
        else:'''),"quiet end"),
 ("C17",(R,'''        if len(readable_blobs) == 0:''','''        if len(supported_blobs) == 0:'''),"control files count as data"),
 ("C17",(R,'''[2] == EXTENSION_TYPE.DATA''','''[2] != EXTENSION_TYPE.CONTROL'''),"index read"),
]
GOOD=[
 ((C,'''        for index in range(self.location + 1):
            next(iterator, None)
        return self.location + 1''','''        to_skip = self.location + 1
        for _ in range(to_skip):
            next(iterator, None)
        return to_skip'''),"skip var"),
 ((C,'''        for index in range(self.location + 1):
            next(iterator, None)
        return self.location + 1''','''        from collections import deque
        from itertools import islice

        to_skip = 1 + self.location
        deque(islice(iterator, to_skip), maxlen=0)
        return to_skip'''),"skip islice"),
 ((C,'''        unread = [blob for blob in self.readable_blobs if blob not in self.read_blobs]
        if len(unread) > 0:
            self.partition = unread[0]
            self.location = -1
            return self.partition
        return None''','''        for blob in self.readable_blobs:
            if blob not in self.read_blobs:
                self.partition = blob
                self.location = -1
                return blob
        return None'''),"unread loop"),
 ((C,'''        unread = [blob for blob in self.readable_blobs if blob not in self.read_blobs]
        if len(unread) > 0:
            self.partition = unread[0]
            self.location = -1
            return self.partition
        return None''','''        upcoming = next((blob for blob in self.readable_blobs if blob not in self.read_blobs), None)
        if upcoming is None:
            return None
        self.partition, self.location = upcoming, -1
        return upcoming'''),"unread next"),
 ((C,'''        self.read_blobs = [
            self.readable_blobs[i] for i in range(len(self.readable_blobs)) if blob_map[i]
        ]''','''        self.read_blobs = []
        for i in range(len(self.readable_blobs)):
            if blob_map[i]:
                self.read_blobs.append(self.readable_blobs[i])'''),"map loop"),
 ((C,'''        self.read_blobs = [
            self.readable_blobs[i] for i in range(len(self.readable_blobs)) if blob_map[i]
        ]''','''        self.read_blobs = [blob for blob, bit in zip(self.readable_blobs, blob_map) if bit]'''),"map zip"),
 ((C,'''        self.read_blobs = [
            self.readable_blobs[i] for i in range(len(self.readable_blobs)) if blob_map[i]
        ]''','''        self.read_blobs = [blob for i, blob in enumerate(self.readable_blobs) if blob_map[i]]'''),"map enumerate"),
 ((C,'''        return {
            "map": self["map"],
            "partition": self["partition"],
            "location": self["location"],
        }''','''        return {key: self[key] for key in ("map", "partition", "location")}'''),"get comp"),
 ((C,'''        self.readable_blobs = sorted(readable_blobs)''','''        self.readable_blobs = list(readable_blobs)
        self.readable_blobs.sort()'''),"sort in place"),
 ((C,'''        if (
            not "location" in cursor.keys()
            or not "map" in cursor.keys()
            or not "partition" in cursor.keys()
        ):''','''        if any(key not in cursor for key in ("location", "map", "partition")):'''),"keys any"),
 ((R,'''                for self.cursor.location, record in enumerate(blob_reader, start=location):
                    yield record
''','''                for position, record in enumerate(blob_reader, start=location):
                    self.cursor.location = position
                    yield record
'''),"location var"),
 ((R,'''                for self.cursor.location, record in enumerate(blob_reader, start=location):
                    yield record
''','''                for record in blob_reader:
                    self.cursor.location = location
                    location += 1
                    yield record
'''),"location counter"),
 ((R,'''        supported_blobs = [b for b in blob_list if f".{ b.split('.')[-1] }" in KNOWN_EXTENSIONS]
        readable_blobs = [
            b
            for b in supported_blobs
            if KNOWN_EXTENSIONS[f".{b.split('.')[-1]}"][2] == EXTENSION_TYPE.DATA
        ]
''','''        supported_blobs = []
        readable_blobs = []
        for b in blob_list:
            extension = "." + b.split(".")[-1]
            if extension not in KNOWN_EXTENSIONS:
                continue
            supported_blobs.append(b)
            if KNOWN_EXTENSIONS[extension][2] == EXTENSION_TYPE.DATA:
                readable_blobs.append(b)
'''),"one pass"),
 ((R,'''        if len(readable_blobs) == 0:
            get_logger().warning(message)
            raise DataNotFoundError(message)
        else:
            get_logger().debug(message)
''','''        if not readable_blobs:
            get_logger().warning(message)
            raise DataNotFoundError(message)
        get_logger().debug(message)
'''),"not readable"),
 ((P,'''            logger.error(f"{blob_name} had an error - {e}\\n{traceback.format_exc()}")
            return []''','''            detail = traceback.format_exc()
            logger.error("{} had an error - {}\\n{}".format(blob_name, e, detail))'''),"format"),
 ((P,'''            decompressor, parser, file_type = KNOWN_EXTENSIONS[ext]
''','''            decompressor, parser, _ = KNOWN_EXTENSIONS[ext]
'''),(P,'''            record_iterator = self.reducer(record_iterator)
            # Yield
            yield from record_iterator''','''            for record in self.reducer(record_iterator):
                yield record'''),"yield loop"),
]
