#!/bin/bash
# Regenerates the test certificates (they are committed; no check needs this).
cd "$(dirname "$0")" || exit 1
T=$(mktemp -d)
cat > $T/c.cnf <<X
[ca]
default_ca=d
[d]
database=$T/db
serial=$T/serial
new_certs_dir=$T
default_md=sha256
policy=p
[p]
commonName=supplied
[v3ca]
basicConstraints=critical,CA:TRUE
subjectKeyIdentifier=hash
X
sign() { : > $T/db; rm -f $T/db.*; openssl rand -hex 8 > $T/serial; openssl ca -batch -notext -config $T/c.cnf "$@" 2>/dev/null; }
ca() { openssl ecparam -name prime256v1 -genkey -noout | openssl pkcs8 -topk8 -nocrypt -out $T/$1.key
openssl req -new -key $T/$1.key -subj "/CN=mc $1" -out $T/$1.csr
sign -selfsign -in $T/$1.csr -keyfile $T/$1.key -extensions v3ca -startdate 20200101000000Z -enddate 20600101000000Z -out $1.pem; }
leaf() { openssl ecparam -name prime256v1 -genkey -noout | openssl pkcs8 -topk8 -nocrypt -out $1.key
openssl req -new -key $1.key -subj "/CN=$1" -out $T/$1.csr
printf "subjectAltName=$3\nbasicConstraints=CA:FALSE\nsubjectKeyIdentifier=hash\nauthorityKeyIdentifier=keyid\nextendedKeyUsage=$6\n" > $T/$1.ext
sign -in $T/$1.csr -cert $2.pem -keyfile $T/$2.key -extfile $T/$1.ext -startdate $4 -enddate $5 -out $1.pem; }
ca ca; ca otherca
leaf server ca DNS:localhost,IP:127.0.0.1 20200101000000Z 20600101000000Z serverAuth
leaf wrongname ca DNS:example.invalid 20200101000000Z 20600101000000Z serverAuth
leaf untrusted otherca DNS:localhost,IP:127.0.0.1 20200101000000Z 20600101000000Z serverAuth
leaf untrustedwrong otherca DNS:example.invalid 20200101000000Z 20600101000000Z serverAuth
leaf expired ca DNS:localhost,IP:127.0.0.1 20200101000000Z 20210101000000Z serverAuth
leaf client ca DNS:client 20200101000000Z 20600101000000Z clientAuth
rm -rf "$T"
