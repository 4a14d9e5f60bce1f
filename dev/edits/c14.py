R="data/readers/reader.py"; V="utils/parameter_validator.py"
D="adapters/disk/disk_reader.py"; G="adapters/google/google_cloud_storage_reader.py"; M="adapters/minio/minio_reader.py"; B="data/readers/internals/base_inner_reader.py"
ANY='''        if not any([True for prefix in valid_dataset_prefixes if str(dataset).startswith(prefix)]):
            raise AccessDenied("Access has been denied to this Dataset (prefix).")
'''
BAD=[
 ("C14",(R,"str(dataset).startswith(prefix)","prefix.startswith(str(dataset))"),"reversed"),
 ("C14",(R,"str(dataset).startswith(prefix)","prefix in str(dataset)"),"substring"),
 ("C14",(R,"str(dataset).startswith(prefix)","str(dataset).lower().startswith(prefix.lower())"),"case"),
 ("C14",(R,"str(dataset).startswith(prefix)","str(dataset).lstrip('/').startswith(prefix)"),"lstrip"),
 ("C14",(R,"if not any([True for","if not all([True for"),"all of filtered list"),
 ("C14",(R,"    if valid_dataset_prefixes:\n"+ANY,""),(R,"    arg_dict = kwargs.copy()","    if valid_dataset_prefixes:\n"+ANY+"    arg_dict = kwargs.copy()"),"checked after the reader is made"),
 ("C14",(R,"    if valid_dataset_prefixes:","    if valid_dataset_prefixes and not raw_path:"),"skipped with raw path"),
 ("C14",(R,"    if valid_dataset_prefixes:","    if valid_dataset_prefixes and len(valid_dataset_prefixes) > 1:"),"single prefix ignored"),
 ("C14",(R,"raise AccessDenied(","AccessDenied("),"not raised"),
 ("C14",(R,"str(dataset).startswith(prefix)","str(dataset).startswith(prefix[:8])"),"truncated prefix"),
 ("C14",(R,"        dataset=dataset,\n        partitions","        dataset=dataset.lstrip('/'),\n        partitions"),"opens another"),
 ("C14",(R,"    if valid_dataset_prefixes:","    if valid_dataset_prefixes is not None:"),"empty list denies"),
 ("C15",(V,"my_rules = self.rules.copy()","my_rules = self.rules"),"rules leak"),
 ("C15",(V,'''                has_errors = True

            # check for missing''','''                has_errors = len(suggestion) > 0

            # check for missing'''),"unknown far from any passes"),
 ("C15",(V,'''                        has_errors = True
                        get_logger''','''                        get_logger'''),"toxic only logged"),
 ("C15",(V,'''                    if toxic:
                        has_errors = True''','''                    has_errors = bool(toxic)
                    if toxic:'''),"toxic overwritten by the next rule"),
 ("C15",(V,'''            if len(missing_required_parameters):
''','''            has_errors = len(missing_required_parameters) > 0
            if len(missing_required_parameters):
'''),"unknown overwritten by missing"),
 ("C15",(V,'''for item in my_rules if item.get("required")}''','''for item in self.rules if item.get("required")}'''),"adapter required ignored"),
 ("C15",(V,'''            if len(missing_required_parameters):
''','''            if len(missing_required_parameters) > 1:
'''),"one missing ok"),
 ("C15",(V,'''                raise InvalidReader''','''                InvalidReader'''),"not raised"),
 ("C15",(V,'''return func(*args, **kwargs)''','''return func(*args, **entered_parameters) if not args else func(*args)'''),"drops kwargs w/ args") if False else ("C15",(V,'''return func(*args, **kwargs)''','''func(*args, **kwargs)'''),"result dropped"),
 ("C36",(D,'rglob("*")','glob("*")'),"not recursive"),
 ("C36",(D,'if blob.is_file()]','if blob.is_file() and not blob.name.startswith(".")]'),"hidden skipped"),
 ("C36",(D,'f.read()','f.read(BUFFER_SIZE)'),"bounded read"),
 ("C36",(D,'"rb"','"r"'),"text"),
 ("C36",(D,'blob.as_posix() for','blob.name for'),"name only"),
 ("C36",(D,'if blob.is_file()]','if blob.is_file() and blob.stat().st_size > 0]'),"empty skipped"),
 ("C36",(M,'recursive=True','recursive=False'),"minio flat"),
 ("C36",(M,', recursive=True',''),"minio default flat"),
 ("C36",(M,'prefix=object_path','prefix=object_path[:-1]'),"minio prefix of name"),
 ("C36",(M,'bucket + "/" + blob.object_name','blob.object_name'),"no bucket"),
 ("C36",(M,'object_path + name + extension','object_path + name'),"no extension"),
 ("C36",(M,'return stream.read()','return stream.read(64 * 1024 * 1024)'),"bounded minio"),
 ("C36",(G,'blobs = list(client.list_blobs(bucket_or_name=gcs_bucket, prefix=object_path))','blobs = list(client.list_blobs(bucket_or_name=gcs_bucket, prefix=object_path, max_results=1000))'),"page"),
 ("C36",(G,'prefix=object_path)','prefix=object_path, delimiter="/")'),"delimiter"),
 ("C36",(G,'not blob.name.endswith("/")','"/" not in blob.name[len(object_path):]'),"subfolders skipped"),
 ("C36",(G,'blob_name=object_path + name + extension','blob_name=object_path + "/" + name + extension'),"double slash"),
 ("C36",(G,'download_as_bytes()','download_as_bytes(end=67108864)'),"range"),
 ("C36",(G,'download_as_bytes()','download_as_bytes(0, 67108864)'),"range pos"),
 ("C36",(B,'return io.BytesIO(result)','return io.BytesIO(result[:BUFFER_SIZE])'),"stream cut"),
 ("C36",(B,'return io.BytesIO(result)','return io.BytesIO(result.strip())'),"stream stripped"),
]
GOOD=[
 ((R,ANY,'''        allowed = any(str(dataset).startswith(prefix) for prefix in valid_dataset_prefixes)
        if not allowed:
            raise AccessDenied("Access has been denied to this Dataset (prefix).")
'''),"any generator"),
 ((R,ANY,'''        for prefix in valid_dataset_prefixes:
            if dataset.startswith(prefix):
                break
        else:
            raise AccessDenied("Access has been denied to this Dataset (prefix).")
'''),"for else"),
 ((R,ANY,'''        if not str(dataset).startswith(tuple(valid_dataset_prefixes)):
            raise AccessDenied("Access has been denied to this Dataset (prefix).")
'''),"tuple"),
 ((R,'''    if valid_dataset_prefixes:
        if not any([True for prefix in valid_dataset_prefixes if str(dataset).startswith(prefix)]):
            raise AccessDenied("Access has been denied to this Dataset (prefix).")
''','''    _check_prefix(dataset, valid_dataset_prefixes)
'''),(R,'''@validate(RULES)''','''def _check_prefix(dataset, prefixes):
    if not prefixes:
        return
    name = str(dataset)
    for prefix in prefixes:
        if name.startswith(prefix):
            return
    raise AccessDenied("Access has been denied to this Dataset (prefix).")


@validate(RULES)'''),"helper"),
 ((V,'''            missing_required_parameters = [
                param for param in required_parameters if param not in entered_parameters
            ]
''','''            missing_required_parameters = []
            for param in required_parameters:
                if param not in entered_parameters:
                    missing_required_parameters.append(param)
'''),"missing loop"),
 ((V,"my_rules = self.rules.copy()","my_rules = list(self.rules)"),"list copy"),
 ((V,'''                    toxic = [
                        t for t in param["incompatible_with"] if t in entered_parameters.keys()
                    ]
                    if toxic:''','''                    toxic = [t for t in param["incompatible_with"] if t in entered_parameters]
                    if len(toxic) > 0:'''),"toxic len"),
 ((V,'''            if has_errors:
                raise InvalidReaderConfigError("Reader has invalid parameters")

            return func(*args, **kwargs)''','''            if not has_errors:
                return func(*args, **kwargs)

            raise InvalidReaderConfigError("Reader has invalid parameters")'''),"inverted"),
 ((V,'''            if len(missing_required_parameters):
''','''            if missing_required_parameters:
'''),"truthy"),
 ((D,'''            blobs = path.rglob("*")
            return [blob.as_posix() for blob in blobs if blob.is_file()]
        return []''','''            return [entry.as_posix() for entry in path.rglob("*") if not entry.is_dir()]
        return []'''),"disk inline"),
 ((D,'''        if path.exists():
            blobs = path.rglob("*")
            return [blob.as_posix() for blob in blobs if blob.is_file()]
        return []''','''        if not path.exists():
            return []
        found = []
        for blob in path.glob("**/*"):
            if blob.is_file():
                found.append(blob.as_posix())
        return found'''),"disk loop"),
 ((D,'''        with open(blob_name, "rb") as f:
            return f.read()''','''        with open(blob_name, mode="rb") as f:
            content = f.read()
        return content'''),"disk read"),
 ((M,'''        yield from [
            bucket + "/" + blob.object_name
            for blob in blobs
            if not blob.object_name.endswith("/")
        ]
''','''        for blob in blobs:
            if blob.object_name.endswith("/"):
                continue
            yield f"{bucket}/{blob.object_name}"
'''),"minio loop"),
 ((M,'''object_path + name + extension)''','''f"{object_path}{name}{extension}")'''),"minio fstring"),
 ((G,'''        yield from [bucket + "/" + blob.name for blob in blobs if not blob.name.endswith("/")]''','''        for blob in client.list_blobs(gcs_bucket, prefix=object_path):
            name = blob.name
            if not name.endswith("/"):
                yield "/".join((bucket, name))'''),(G,'''        blobs = list(client.list_blobs(bucket_or_name=gcs_bucket, prefix=object_path))

''',''),"gcs lazily"),
 ((B,'''        result = self.get_blob_bytes(blob)
        return io.BytesIO(result)''','''        return io.BytesIO(self.get_blob_bytes(blob))'''),"read_blob inline"),
]
