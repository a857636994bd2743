# Sourced. vh_build ID TAG: builds the harness of one property into $VH_TMP
# (a fresh directory) from /repo's working tree; nothing is written elsewhere
# but in Go's build cache.
. /opt/vp/env.sh
export GOSUMDB=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod GOWORK=off
vh_build() {
  VH_TMP=$(mktemp -d) || return 1
  export VH_TMP
  cp "$ROOT/harness/go.mod" "$VH_TMP/go.mod" && cp "$ROOT/harness/go.sum" "$VH_TMP/go.sum" || return 1
  local race=
  if [ "$1" = C19 ]; then race=-race; export GORACE="halt_on_error=1 exitcode=66"; fi
  # C20, C24: add game systems to the (empty) list of systems, if its source looks as expected
  local list=/repo/pkg/dicebot/list/list.go re='^var [A-Za-z]+ = map\[string\]dicebot\.DiceBotConstructor\{\}'
  if { [ "$1" = C24 ] || [ "$1" = C20 ]; } && [ "$(grep -cE "$re" $list)" = 1 ]; then
    sed -E "/$re/s/=.*/= verifSystems()/" $list >"$VH_TMP/list.go" && cp "$ROOT/harness/overlay/systems.go.txt" "$VH_TMP/systems.go" &&
    echo "{\"Replace\":{\"$list\":\"$VH_TMP/list.go\",\"/repo/pkg/dicebot/list/verif_systems.go\":\"$VH_TMP/systems.go\"}}" >"$VH_TMP/overlay.json" &&
    (cd "$ROOT/harness" && go build -overlay "$VH_TMP/overlay.json" -ldflags "-X main.overlaySystems=1" -modfile="$VH_TMP/go.mod" -tags "$2" -o "$VH_TMP/vh" . 2>/dev/null) && return 0
  fi
  (cd "$ROOT/harness" && go build $race -modfile="$VH_TMP/go.mod" -tags "$2" -o "$VH_TMP/vh" .) || return 1
  if [ "$1" = C15 ] || [ "$1" = C21 ] || [ "$1" = C32 ]; then
    cp /repo/go.mod "$VH_TMP/repl.mod" && cp /repo/go.sum "$VH_TMP/repl.sum" || return 1
    (cd /repo && go build -modfile="$VH_TMP/repl.mod" -o "$VH_TMP/repl" ./cmd/GoBCDiceREPL) || return 1
    export VH_REPL="$VH_TMP/repl"
  fi
  if [ "$1" = C29 ]; then
    cp /repo/go.mod "$VH_TMP/api.mod" && cp /repo/go.sum "$VH_TMP/api.sum" || return 1
    (cd /repo && go build -modfile="$VH_TMP/api.mod" -o "$VH_TMP/api" ./cmd/GoBCDiceAPI) || return 1
    export VH_API="$VH_TMP/api"
  fi
}
