{"id":"C03-expiry-truncated","property":"C03","dir":"v2",
"needs":"an expiry with a sub-second part, shortly after it has passed",
"breaks":"SetExpiry stores the instant rounded to whole seconds, so an assignment can stay in force after it",
"edits":[("v2/v2.go","""	pr.Expiry = &expiry
	return nil
}

func (pr *PrincipalRole) SetExpiryDuration""","""	expiry = expiry.Round(time.Second)
	pr.Expiry = &expiry
	return nil
}

func (pr *PrincipalRole) SetExpiryDuration""")],
"demo":'''package v2_test
import ("testing"; "time"; v2 "github.com/oarkflow/permission/v2")
func TestSeedDemo(t *testing.T) {
	pr := &v2.PrincipalRole{}
	x := time.Now().Add(time.Hour).Truncate(time.Second).Add(600*time.Millisecond)
	if err := pr.SetExpiry(x); err != nil { t.Fatal(err) }
	if !pr.Expiry.Equal(x) { t.Fatal("another instant was stored") }
}
'''}
