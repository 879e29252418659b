# per-property wording for MANIFEST.json
NOTE = {}
