// C23, C25: operators whose results are not specified further
contract op "types.of" { prop C23 C25 }
contract op "types.get" { prop C23 C25 }
contract op "types.assert" { prop C23 C25 }
contract op "yaml.marshal" { prop C23 C25 }
contract op "yaml.unmarshal" { prop C23 C25 }
contract op "files.glob" { prop C23 C25 }
contract op "files.read" { prop C23 C25 }
contract op "schema" { prop C23 C25 }
