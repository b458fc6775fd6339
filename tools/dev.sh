#!/bin/bash
# developer helper: start a throw-away postgres under /tmp/vdev and build the harness
set -e
. /opt/vp/env.sh
W=/tmp/vdev
if [ ! -S $W/pg/.s.PGSQL.5432 ]; then
  mkdir -p $W/pg; chown -R postgres $W; chmod 755 $W
  B=$(ls -d /usr/lib/postgresql/*/bin | tail -1)
  R="setpriv --reuid=postgres --regid=postgres --init-groups"
  $R $B/initdb -D $W/pg/data -A trust -U postgres -E UTF8 --no-sync >/dev/null
  $R $B/pg_ctl -D $W/pg/data -w -o "-c listen_addresses= -c unix_socket_directories=$W/pg -c fsync=off -c synchronous_commit=off -c full_page_writes=off -c max_connections=500" -l $W/pg/log start >/dev/null
  for i in $(seq 0 39); do psql -h $W/pg -U postgres -qc "create database w$i" ; done
fi
python3 "$(dirname "$(readlink -f "$0")")"/overlay.py > $W/o.json
cd ${VERIF_REPO:-/repo} && go test -vet=off -c -overlay $W/o.json -o $W/bin "$@" ./zz_verif
