------------------------------- MODULE RpcMC -------------------------------
EXTENDS Rpc
MCScripts == {<<>>, <<"par", "reply", "reply">>, <<"call", "fail">>}
MCScriptsBig == {<<>>, <<"reply">>, <<"par", "reply", "reply">>, <<"call", "fail">>, <<"reply", "call">>}
MCScriptsSmall == {<<>>, <<"par", "call", "reply">>, <<"reply", "call">>}
MCJunk == {"unknown"}
MCIdKinds == {"num"}
=============================================================================
