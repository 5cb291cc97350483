package config

// The settings of the operator, as flags.

import "flag"

type vFlagSet struct {
	bools  map[string]bool
	strs   map[string]string
	ints   map[string]int
	parsed bool
}

var vCli *vFlagSet

func vFlagBool(name string, def bool, usage string) *bool {
	x := def
	if v, ok := vCli.bools[name]; ok {
		x = v
	}
	return &x
}

func vFlagString(name string, def string, usage string) *string {
	x := def
	if v, ok := vCli.strs[name]; ok {
		x = v
	}
	return &x
}

func vFlagInt(name string, def int, usage string) *int {
	x := def
	if v, ok := vCli.ints[name]; ok {
		x = v
	}
	return &x
}

func vFlagBoolVar(p *bool, name string, def bool, usage string) { *p = *vFlagBool(name, def, usage) }
func vFlagStringVar(p *string, name string, def string, usage string) {
	*p = *vFlagString(name, def, usage)
}
func vFlagIntVar(p *int, name string, def int, usage string) { *p = *vFlagInt(name, def, usage) }

func vFlagParse() { vCli.parsed = true }

var _ = flag.Parse

func vHexText(s string, from int) bool {
	out := []bool{len(s) == from+40}
	for i := from; i < len(s); i++ {
		out = append(out, vOr(vAnd(s[i] >= '0', s[i] <= '9'), vAnd(s[i] >= 'a', s[i] <= 'f'), vAnd(s[i] >= 'A', s[i] <= 'F')))
	}
	return vAnd(out...)
}

// vC27Cli: any settings.
func vC27Cli() {
	f := &vFlagSet{bools: map[string]bool{}, strs: map[string]string{}, ints: map[string]int{}}
	vCli = f
	dry := vPick("dry", 2) == 1
	if dry {
		f.bools["dry-run"] = true
	}
	text := func(name string) string {
		s := vStr(name, 2)
		f.strs[name] = s
		return s
	}
	maybe := func(name string) string {
		if vPick(name+" given", 2) == 0 {
			return ""
		}
		return text(name)
	}
	file, pass := maybe("updater-keystore-file"), maybe("updater-keystore-pass")
	cons, exec := text("consensus-endpoint"), text("execution-endpoint")
	sync, level := text("checkpoint-sync-url"), text("log-level")
	pool := vStr("pool", []int{0, 2, 39, 40, 41, 42, 43, 64}[vPick("poolLen", 8)])
	f.strs["pool-address"] = pool
	lists := []struct {
		text string
		list []string
	}{
		{"https://a", []string{"https://a"}},
		{"https://a,https://b:8", []string{"https://a", "https://b:8"}},
		{"https://a,https://b,https://c/d", []string{"https://a", "https://b", "https://c/d"}},
		{"", nil}, {",", nil}, {"https://a,", nil}, {",https://a", nil}, {"https://a,,https://b", nil}, {"http://a", nil}, {"https://a,http://b", nil},
		{"http://a,https://b", nil}, {"a", nil}, {"https:/a", nil}, {"https://a b", nil}, {"https://a,https://b%zz", nil}, {" https://a", nil},
	}
	relays := lists[vPick("relays", len(lists))]
	f.strs["relayers-endpoints"] = relays.text
	retries, port, metrics := int(vInt("retries", 0, 1000)), int(vInt("port", 0, 65535)), int(vInt("metrics", 0, 65535))
	f.ints["num-retries"], f.ints["api-port"], f.ints["metrics-port"] = retries, port, metrics
	var c *CliConfig
	var err error
	r := vTry(func() { c, err = NewCliConfig() })
	valid := relays.list != nil && (dry && file == "" && pass == "" || !dry && file != "" && pass != "")
	hex := vHexText(pool, 0)
	if len(pool) == 42 {
		hex = vAnd(pool[0] == '0', vOr(pool[1] == 'x', pool[1] == 'X'), vHexText(pool, 2))
	}
	vAssert(r == 0 && f.parsed, "the flags are read")
	if !valid || !vForce(hex) {
		vReach("refused")
		vAssert(err != nil, "incomplete or contradictory settings are refused")
		return
	}
	vReach("accepted")
	vAssert(err == nil && c != nil, "complete settings are accepted")
	vAssert(c.DryRun == dry, "dry run")
	vAssert(vAnd(vEqStr(c.UpdaterKeyFile, file), vEqStr(c.UpdaterKeyPass, pass), vEqStr(c.ConsensusEndpoint, cons), vEqStr(c.ExecutionEndpoint, exec),
		vEqStr(c.CheckPointSyncUrl, sync), vEqStr(c.LogLevel, level), vEqStr(c.PoolAddress, pool)), "the texts are those given")
	vAssert(vAnd(c.NumRetries == retries, c.ApiPort == port, c.MetricsPort == metrics), "the numbers are those given")
	vAssert(len(c.RelayersEndpoints) == len(relays.list), "the relays are those given")
	for i, x := range relays.list {
		vAssert(c.RelayersEndpoints[i] == x, "the relays are those given")
	}
}
