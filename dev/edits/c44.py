W = "data/readers/internals/multiprocess_wrapper.py"
R = "data/readers/reader.py"
BAD = [
    ("C44", (W, "if dt is None or dt_type in (int, float, bool, str):", "if dt_type in (int, float, bool, str):"), "null as text"),
    ("C44", (W, "if dt is None or dt_type in (int, float, bool, str):", "if dt is None or dt_type in (int, float, str):"), "bool as text"),
    ("C44", (W, "            return fix_dict(dt)\n", "            return str(fix_dict(dt))\n"), "nested as text"),
    ("C44", (W, "            return [fix_fields(i) for i in dt]\n", "            return str([fix_fields(i) for i in dt])\n"), "list as text"),
    ("C44", (W, "            return [fix_fields(i) for i in dt]\n", "            return [fix_fields(i) for i in dt if i]\n"), "list without falsy"),
    ("C44", (W, ".split(b\"\\n\") if r])", ".split(b\"\\n\") if len(r) > 2])"), "short lines"),
    ("C44", (W, "b\"\\n\".join(map(serialize", "b\"\".join(map(serialize"), "no newline"),
    ("C44", (W, "    item_index = slots\n", "    item_index = slots + 1\n"), "one skipped"),
    ("C44", (W, "    item_index = slots\n", "    item_index = slots - 1\n"), "one twice"),
    ("C44", (W, "            if item_index < len(items_to_read):\n                send_queue.put_nowait(", "            if item_index < len(items_to_read) - 1:\n                send_queue.put_nowait("), "last not sent"),
    ("C44", (W, "                item_index += 1\n            else:\n                send_queue.put_nowait(TERMINATE_SIGNAL)\n", "                item_index += 1\n"), "never told to stop"),
    ("C44", (W, "                item_index += 1\n            else:\n                send_queue.put_nowait(TERMINATE_SIGNAL)\n", "                item_index += 1\n            send_queue.put_nowait(TERMINATE_SIGNAL)\n"), "told to stop early"),
    ("C44", (W, "        source = None\n        while source is None:\n            try:\n                source = source_queue.get(timeout=1)\n            except Empty:  # pragma: no cover\n                source = None\n", "        try:\n            source = source_queue.get(timeout=1)\n        except Empty:  # pragma: no cover\n            source = TERMINATE_SIGNAL\n"), "gives up waiting"),
    ("C44", (W, "        reply_queue.put(\n            lz4.frame.compress(b\"\\n\".join(map(serialize, func(source, [])))),\n            timeout=30,\n        )\n", "        records = b\"\\n\".join(map(serialize, func(source, [])))\n        if records:\n            reply_queue.put(lz4.frame.compress(records), timeout=30)\n"), "no reply for nothing"),
    ("C44", (W, "        while reply_queue.full():\n            time.sleep(1)\n", "        if reply_queue.full():\n            time.sleep(1)\n            continue\n"), None) if False else
    ("C44", (W, "        while reply_queue.full():\n            time.sleep(1)\n", "        while reply_queue.full():\n            source = source_queue.get()\n"), "takes another when full"),
    ("C44", (W, "max(min(len(items_to_read), multiprocessing.cpu_count() - 1), 2)", "min(len(items_to_read), multiprocessing.cpu_count() - 1)"), "no process on one cpu"),
    ("C44", (W, "    while (\n        any({p.is_alive() for p in process_pool})\n        or not reply_queue.empty()\n        or not send_queue.empty()\n    ):\n", "    while not send_queue.empty():\n"), "stops when all handed out"),
    ("C44", (W, "    while (\n        any({p.is_alive() for p in process_pool})\n        or not reply_queue.empty()\n        or not send_queue.empty()\n    ):\n", "    while all({p.is_alive() for p in process_pool}):\n") , "stops at the first end") if False else
    ("C44", (W, "        except Empty:  # nosec\n            if", "        except Empty:  # nosec\n            send_queue.put_nowait(TERMINATE_SIGNAL)\n            if"), "stop while waiting"),
    ("C44", (W, "            yield from map(json, [r for r in lz4.frame.decompress(records).split(b\"\\n\") if r])\n", "            rows = lz4.frame.decompress(records).split(b\"\\n\")\n            yield from map(json, rows[:-1])\n"), "last record"),
    ("C44", (W, "            yield from map(json, [r for r in lz4.frame.decompress(records).split(b\"\\n\") if r])\n", "            yield from map(json, {r for r in lz4.frame.decompress(records).split(b\"\\n\") if r})\n"), "same records once"),
    ("C44", (W, "            yield from map(json, [r for r in lz4.frame.decompress(records).split(b\"\\n\") if r])\n", "            yield from (r for r in map(json, [r for r in lz4.frame.decompress(records).split(b\"\\n\") if r]) if r)\n"), "empty records"),
    ("C44", (R, "                not self.cursor,  # we must not have a cursor\n", ""), "cursor ignored"),
    ("C44", (R, "processed_reader(parallel, readable_blobs, supported_blobs)", "processed_reader(parallel, supported_blobs, supported_blobs)"), "control blobs"),
    ("C44", (R, "processed_reader(parallel, readable_blobs, supported_blobs)", "processed_reader(parallel, readable_blobs[1:], supported_blobs)"), "not the first"),
    ("C44", (R, "processed_reader(parallel, readable_blobs, supported_blobs)", "processed_reader(ParallelReader(reader=self.reader_class, columns=self.select), readable_blobs, supported_blobs)"), "no filter"),
    ("C44", (W, "    if not isinstance(obj, dict):\n        return obj  # type:ignore\n", "    if not isinstance(obj, dict):\n        return str(obj)  # type:ignore\n"), "lists as text"),
    ("C44", (W, "    for key in obj.keys():\n        obj[key] = fix_fields(obj[key])\n    return obj\n", "    return {key: fix_fields(value) for key, value in obj.items() if value is not None}\n"), "nulls dropped"),
]
GOOD = [
    ((W, "    for key in obj.keys():\n        obj[key] = fix_fields(obj[key])\n    return obj\n", "    return {key: fix_fields(value) for key, value in obj.items()}\n"), "c44 comprehension"),
    ((W, "    for item_index in range(slots):\n        if item_index < len(items_to_read):\n            send_queue.put(items_to_read[item_index])\n", "    for item in items_to_read[:slots]:\n        send_queue.put(item)\n"), "c44 slice"),
    ((W, "            if item_index < len(items_to_read):\n                send_queue.put_nowait(items_to_read[item_index])\n                item_index += 1\n            else:\n                send_queue.put_nowait(TERMINATE_SIGNAL)\n", "            more = item_index < len(items_to_read)\n            send_queue.put_nowait(items_to_read[item_index] if more else TERMINATE_SIGNAL)\n            item_index += 1\n"), "c44 one put"),
    ((W, "    item_index = slots\n", "    waiting = iter(items_to_read[slots:])\n"), (W, "            if item_index < len(items_to_read):\n                send_queue.put_nowait(items_to_read[item_index])\n                item_index += 1\n            else:\n                send_queue.put_nowait(TERMINATE_SIGNAL)\n", "            send_queue.put_nowait(next(waiting, TERMINATE_SIGNAL))\n"), "c44 next"),
    ((W, "        reply_queue.put(\n            lz4.frame.compress(b\"\\n\".join(map(serialize, func(source, [])))),\n            timeout=30,\n        )\n", "        lines = [serialize(record) for record in func(source, [])]\n        reply_queue.put(lz4.frame.compress(b\"\\n\".join(lines)), timeout=30)\n"), "c44 lines"),
    ((W, "        reply_queue.put(\n            lz4.frame.compress(b\"\\n\".join(map(serialize, func(source, [])))),\n            timeout=30,\n        )\n", "        payload = bytearray()\n        for record in func(source, []):\n            payload.extend(serialize(record) + b\"\\n\")\n        reply_queue.put(lz4.frame.compress(bytes(payload)), timeout=30)\n"), "c44 buffer"),
    ((W, "            yield from map(json, [r for r in lz4.frame.decompress(records).split(b\"\\n\") if r])\n", "            for line in lz4.frame.decompress(records).splitlines():\n                if line:\n                    yield json(line)\n"), "c44 for"),
    ((W, "        source = None\n        while source is None:\n            try:\n                source = source_queue.get(timeout=1)\n            except Empty:  # pragma: no cover\n                source = None\n", "        while True:\n            try:\n                source = source_queue.get(timeout=1)\n                break\n            except Empty:  # pragma: no cover\n                continue\n"), "c44 while true"),
    ((W, "        if dt_type in (list, tuple, set):\n            return [fix_fields(i) for i in dt]\n", "        if isinstance(dt, (list, tuple, set)):\n            return list(map(fix_fields, dt))\n"), "c44 isinstance"),
    ((W, "            args=(func, send_queue, reply_queue),\n", "            kwargs={\"func\": func, \"source_queue\": send_queue, \"reply_queue\": reply_queue},\n"), "c44 kwargs"),
    ((R, "        use_multiprocess = all(\n            [\n                self.multiprocess,  # the user must have asked for it\n                not self.cursor,  # we must not have a cursor\n                len(readable_blobs) > 4,  # we must enough files to read\n            ]\n        )\n", "        use_multiprocess = self.multiprocess and not self.cursor and len(readable_blobs) > 4\n"), "c44 and"),
]
