"""A stand-in for the Hugging Face hub: the methods of HfApi are replaced by ones that keep repositories in a scratch directory and record every request."""
import fnmatch
import hashlib
import inspect
import os
import shutil

import huggingface_hub
from huggingface_hub import HfApi


class NotFound(Exception):
    pass


class Refused(Exception):
    pass


class Url(str):
    """What create_repo returns."""


METHODS = ["create_repo", "upload_folder", "upload_file", "repo_info", "model_info", "snapshot_download", "hf_hub_download", "repo_exists", "file_exists", "list_repo_files", "whoami"]
REAL = {n: getattr(HfApi, n) for n in METHODS}
SIGS = {n: inspect.signature(REAL[n]) for n in METHODS}


class Hub:
    def __init__(self, root, default_token="default"):
        self.root = root
        self.repos = {}  # repo -> dict(private, owner, branches {name: {path: bytes}}, n)
        self.calls = []
        self.default = default_token
        self.fault = {}  # method -> exception to raise, or function(arguments)
        self.n = 0

    # -- the interposition ------------------------------------------------------------
    def __enter__(self):
        hub = self
        for name in METHODS:
            def method(api, *a, _name=name, **kw):
                b = SIGS[_name].bind(api, *a, **kw)
                args = dict(b.arguments)
                args.pop("self")
                tok = args.get("token")
                if tok is None:
                    tok = api.token
                args["given_token"] = tok
                eff = hub.default if tok in (None, True) else tok
                hub.calls.append((_name, dict(args)))
                f = hub.fault.get(_name)
                if callable(f) and not isinstance(f, type):
                    f(args)
                elif f is not None:
                    raise f
                return getattr(hub, _name)(eff, **{k: v for k, v in args.items() if k not in ("token", "given_token")})
            setattr(HfApi, name, method)
        for k, v in (("HF_HUB_OFFLINE", "1"),):
            os.environ[k] = v
        return self

    def __exit__(self, *exc):
        for name in METHODS:
            setattr(HfApi, name, REAL[name])

    # -- the hub ----------------------------------------------------------------------
    def name(self, repo_id):
        return repo_id if "/" in repo_id else "me/" + repo_id

    def repo(self, repo_id, eff, write=False):
        r = self.repos.get(repo_id if "/" in repo_id else None) or (self.repos.get(repo_id) if "/" not in repo_id else None)
        if r is None or (r["private"] and eff != r["owner"]):
            raise NotFound(f"401 repository {repo_id} not found")
        if write and eff != r["owner"]:
            raise Refused(f"403 {repo_id}")
        return r

    def create_repo(self, eff, repo_id, private=None, repo_type=None, exist_ok=False, visibility=None, **kw):
        if eff is False:
            raise Refused("401 anonymous")
        repo_id = self.name(repo_id)
        if repo_type not in (None, "model"):
            repo_id = f"{repo_type}s/{repo_id}"
        if repo_id in self.repos:
            if not exist_ok:
                raise Refused("409 the repository already exists")
            if self.repos[repo_id]["owner"] != eff:
                raise Refused("403")
        else:
            if visibility is not None:
                private = visibility == "private"
            if private is None:
                private = True  # the account makes what is not declared public private
            self.repos[repo_id] = dict(private=bool(private), owner=eff, branches={b: {".gitattributes": b"*.npy lfs\n"} for b in ("main", "dev", "v1.0")}, commits=[])
        u = Url("https://hub.example/" + repo_id)
        u.repo_id, u.repo_type, u.url, u.endpoint, u.namespace, u.repo_name = repo_id, repo_type or "model", str(u), "https://hub.example", repo_id.split("/")[0], repo_id.split("/")[1]
        return u

    def upload_folder(self, eff, repo_id, folder_path, path_in_repo=None, commit_message=None, repo_type=None, revision=None, allow_patterns=None, ignore_patterns=None, delete_patterns=None,
                      create_pr=None, commit_description=None, parent_commit=None, run_as_future=False):
        r = self.repo(repo_id if repo_type in (None, "model") else f"{repo_type}s/{repo_id}", eff, True)
        folder_path = os.path.expanduser(os.fspath(folder_path))
        if not os.path.isdir(folder_path):
            raise ValueError(f"{folder_path!r} is not a directory")
        files = {}
        for d, _, fs in os.walk(folder_path):
            for f in fs:
                p = os.path.join(d, f)
                if not os.path.isfile(p):
                    continue
                rel = os.path.relpath(p, folder_path).replace(os.sep, "/")
                if rel.startswith(".git/") or rel.startswith(".cache/huggingface/"):
                    continue
                one = lambda ps: [ps] if isinstance(ps, str) else ps
                if allow_patterns is not None and not any(fnmatch.fnmatch(rel, q) for q in one(allow_patterns)):
                    continue
                if ignore_patterns is not None and any(fnmatch.fnmatch(rel, q) for q in one(ignore_patterns)):
                    continue
                with open(p, "rb") as fh:
                    files[(path_in_repo + "/" if path_in_repo else "") + rel] = fh.read()
        self.commit(r, revision, files, commit_message, eff, os.path.realpath(folder_path), commit_description)

    def upload_file(self, eff, path_or_fileobj, path_in_repo, repo_id, repo_type=None, revision=None, commit_message=None, commit_description=None, **kw):
        r = self.repo(repo_id if repo_type in (None, "model") else f"{repo_type}s/{repo_id}", eff, True)
        x = path_or_fileobj
        data = x if isinstance(x, bytes) else x.read() if hasattr(x, "read") else open(x, "rb").read()
        self.commit(r, revision, {path_in_repo: data}, commit_message, eff, None, commit_description)

    def commit(self, r, revision, files, message, eff, folder, description):
        rev = revision or "main"
        if rev not in r["branches"]:
            raise NotFound(f"404 revision {rev}")
        r["branches"][rev] = {**r["branches"][rev], **files}
        r["commits"].append(dict(revision=rev, message=message, token=eff, files=sorted(files), folder=folder, description=description))

    def repo_info(self, eff, repo_id, revision=None, **kw):
        r = self.repo(repo_id, eff)
        if (revision or "main") not in r["branches"]:
            raise NotFound(f"404 revision {revision}")

        class Info:
            id = repo_id
            private = r["private"]
            siblings = []
        return Info()

    def model_info(self, eff, repo_id, **kw):
        return self.repo_info(eff, repo_id, **kw)

    def repo_exists(self, eff, repo_id, **kw):
        try:
            self.repo(repo_id, eff)
            return True
        except NotFound:
            return False

    def list_repo_files(self, eff, repo_id, revision=None, **kw):
        return sorted(self.repo(repo_id, eff)["branches"][revision or "main"])

    def file_exists(self, eff, repo_id, filename, revision=None, **kw):
        return filename in self.repo(repo_id, eff)["branches"].get(revision or "main", {})

    def whoami(self, eff, **kw):
        return {"name": "me"}

    def _tree(self, eff, repo_id, revision):
        r = self.repo(repo_id, eff)
        if (revision or "main") not in r["branches"]:
            raise NotFound(f"404 revision {revision}")
        return r["branches"][revision or "main"]

    def snapshot_download(self, eff, repo_id, revision=None, local_dir=None, cache_dir=None, allow_patterns=None, ignore_patterns=None, repo_type=None, **kw):
        tree = self._tree(eff, repo_id, revision)
        one = lambda ps: [ps] if isinstance(ps, str) else ps
        if allow_patterns is not None:
            tree = {k: v for k, v in tree.items() if any(fnmatch.fnmatch(k, q) for q in one(allow_patterns))}
        if ignore_patterns is not None:
            tree = {k: v for k, v in tree.items() if not any(fnmatch.fnmatch(k, q) for q in one(ignore_patterns))}
        if local_dir is not None:
            local_dir = os.path.realpath(os.path.expanduser(os.fspath(local_dir)))
            for k, v in tree.items():
                p = os.path.join(local_dir, k)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                tmp = p + ".incomplete"
                with open(tmp, "wb") as f:
                    f.write(v)
                os.replace(tmp, p)
            os.makedirs(os.path.join(local_dir, ".cache", "huggingface"), exist_ok=True)
            return local_dir
        base = os.path.join(os.fspath(cache_dir or self.root), "models--" + repo_id.replace("/", "--"))
        h = hashlib.sha1(repr(sorted(tree.items())).encode()).hexdigest()
        snap = os.path.join(base, "snapshots", h)
        if not os.path.isdir(snap):
            os.makedirs(os.path.join(base, "blobs"), exist_ok=True)
            for k, v in tree.items():
                blob = os.path.join(base, "blobs", hashlib.sha1(v).hexdigest())
                if not os.path.exists(blob):
                    with open(blob, "wb") as f:
                        f.write(v)
                    os.chmod(blob, 0o444)
                p = os.path.join(snap, k)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                os.symlink(os.path.relpath(blob, os.path.dirname(p)), p)
        return snap

    def hf_hub_download(self, eff, repo_id, filename, revision=None, local_dir=None, cache_dir=None, **kw):
        d = self.snapshot_download(eff, repo_id, revision=revision, local_dir=local_dir, cache_dir=cache_dir, allow_patterns=[filename])
        p = os.path.join(d, filename)
        if not os.path.exists(p):
            raise NotFound(f"404 {filename}")
        return p
