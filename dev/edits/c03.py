B="data/writers/internals/blob_writer.py"; W="data/writers/writer.py"; F="data/writers/batch_writer.py"; S="data/writers/stream_writer.py"; P="data/writers/internals/writer_pool.py"; D="data/writers/database_writer.py"
K="adapters/disk/disk_writer.py"; G="adapters/google/google_cloud_storage_writer.py"; M="adapters/minio/minio_writer.py"; I="data/writers/internals/base_inner_writer.py"
BAD=[
 ("C03",(W,"            raise e\n","            return None\n"),"Writer.finalize swallows"),
 ("C03",(W,"            raise e\n","            if self.records > 0:\n                raise e\n"),"Writer.finalize swallows when no records"),
 ("C03",(S,"        if failure is not None:\n            raise failure\n","        if failure is None:\n            return final\n"),"stream swallows"),
 ("C03",(P,"        finally:\n            lock.release()\n\n    def close","        except Exception:\n            pass\n        finally:\n            lock.release()\n\n    def close"),"pool remove swallows"),
 ("C03",(B,"            finally:\n                lock.release()\n\n        self.open","            except OSError as e:\n                get_logger().error(str(e))\n                return \"\"\n            finally:\n                lock.release()\n\n        self.open"),"blob commit swallows OSError"),
 ("C03",(D,"            raise Exception from e\n",""),"db finalize swallows"),
 ("C03",(D,"                self.inner_writer.commit(self.wal)\n","                try:\n                    self.inner_writer.commit(self.wal)\n                except Exception as e:\n                    get_logger().error(e)\n"),"db commit swallows"),
 ("C03",(K,"            raise err",""),"disk swallows"),
 ("C03",(G,"            raise err","            return blob_name"),"gcs swallows"),
 ("C03",(F,"        flag = self.blob_writer.inner_writer.commit(\n            b\"\",\n            override_blob_name=completion_path,\n        )\n","        try:\n            flag = self.blob_writer.inner_writer.commit(b\"\", override_blob_name=completion_path)\n        except Exception:\n            flag = None\n"),"marker failure swallowed"),
 ("C03",(B,"            self.commit()\n            self.open_buffer()\n\n        if isinstance","            try:\n                self.commit()\n            except Exception:\n                get_logger().error(\"x\")\n\n        if isinstance"),"rollover failure swallowed"),
 ("C03",(D,"            finally:\n                lock.release()\n\n            self.wal","            finally:\n                lock.release()\n                return\n\n            self.wal"),"return in finally"),
 ("C08",(K,"file.write(byte_data)","file.write(byte_data[:-1])"),"disk truncates"),
 ("C08",(K,"mode=\"wb\"","mode=\"ab\""),"disk appends"),
 ("C08",(K,"blob_name = override_blob_name","blob_name = override_blob_name.lower()"),"override lowercased"),
 ("C08",(K,"            return blob_name","            return self.filename"),"returns other name"),
 ("C08",(M,"len(byte_data))","len(byte_data) - 1)"),"minio length"),
 ("C08",(M,"blob_name, io","self.filename, io"),"minio name"),
 ("C08",(G,"            return blob_name\n        except","        except"),"gcs returns none"),
 ("C08",(G,"(byte_data, content","(byte_data.strip(), content"),"gcs strips"),
 ("C08",(G,"            blob = self","            if not byte_data:\n                return blob_name\n            blob = self"),"gcs skip empty"),
 ("C08",(K,"            with open(blob_name, mode=\"wb\") as file:","            if os.path.exists(blob_name):\n                return blob_name\n            with open(blob_name, mode=\"wb\") as file:"),"disk skip existing"),
 ("C08",(M,"        if override_blob_name:","        if override_blob_name and byte_data:"),"override ignored for empty"),
 ("C09",(I,"{time.time_ns():x}","{int(time.time()):x}"),"seconds"),
 ("C09",(I,"{time.time_ns():x}","{time.time_ns() // 1000000:x}"),"millis"),
 ("C09",(I,"{uuid.getnode():x}-{os.getpid():x}","{uuid.getnode():x}"),"no pid"),
 ("C09",(I,"{uuid.getnode():x}-{os.getpid():x}","{os.getpid():x}"),"no host"),
 ("C09",(I,"    def _build_path(self):","    @lru_cache(1)\n    def _build_path(self):"),"cached"),
 ("C09",(I,"{time.time_ns():x}-","{str(time.time_ns())[:10]}-"),"cut"),
 ("C09",(I,"        self.filename_without_bucket = path","        self._id = time.time_ns()\n        self.filename_without_bucket = path"),(I,"{time.time_ns():x}","{self._id:x}"),"id once"),
]
GOOD=[
 ((K,"            if override_blob_name:\n                blob_name = override_blob_name\n            else:\n                blob_name = self._build_path()\n","            blob_name = override_blob_name or self._build_path()\n"),"or form"),
 ((K,"            with open(blob_name, mode=\"wb\") as file:\n                file.write(byte_data)\n","            file = open(blob_name, \"wb\")\n            try:\n                file.write(byte_data)\n            finally:\n                file.close()\n"),"try/finally close"),
 ((I,"        blob_id = f\"{time.time_ns():x}-{self._get_node()}\"\n        return self.filename.replace(STEM, f\"{blob_id}\")","        return self.filename.replace(STEM, \"-\".join((format(time.time_ns(), \"x\"), self._get_node())))"),"join form"),
 ((M,"        self.client.put_object(self.bucket, blob_name, io.BytesIO(byte_data), len(byte_data))\n","        size = len(byte_data)\n        stream = io.BytesIO(byte_data)\n        self.client.put_object(\n            bucket_name=self.bucket, object_name=blob_name, data=stream, length=size\n        )\n"),"kw form"),
 ((G,"            self.retry(blob.upload_from_string)(byte_data, content_type=\"application/octet-stream\")\n","            upload = self.retry(blob.upload_from_string)\n            upload(byte_data, content_type=\"application/octet-stream\")\n"),"upload var"),
 ((W,"        try:\n            return self.blob_writer.commit()\n        except Exception as e:","        try:\n            result = self.blob_writer.commit()\n            return result\n        except Exception as e:"),"result var"),
]
